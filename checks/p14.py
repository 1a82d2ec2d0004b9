"""Extreme numbers and odd names.  Every arithmetic operation that is checked for overflow, every size
of an allocation, every number of repetitions and every position looked up is brought to a term over the
input; those that depend on a threshold, on how many members there are or on the characters of a name
must be within bounds under the conditions of every path that leads there."""
from p12 import *
import models
from finders import callees

MODS = ("::analysis::", "::core_types::", "::io::")
SLOW = ("Analysis::",)
ALLOC = {"with_capacity": 0, "from_elem": 1, "resize": 1, "resize_with": 1, "reserve": 1, "reserve_exact": 1, "repeat": 1, "repeat_n": 1,
         "combinations": 1, "with_capacity_and_hasher": 0, "reserve_len": 1, "reserve_len_exact": 1, "permutations": 1}
LOOPS = ("into_iter", "map", "for_each", "collect", "filter", "flat_map", "fold", "next", "all", "any", "rev", "extend", "zip", "filter_map")
STRPOS = ("remove", "insert", "insert_str", "split_off", "split_at", "drain", "replace_range", "swap_remove")
STRFAIL = ("str::find", "str::rfind", "String::pop", "str::split_once", "str::rsplit_once", "str::strip_prefix", "str::strip_suffix", "str::parse", "Chars::last", "char::to_digit", "str::get",
           "from_utf8", "Iterator::nth", "Iterator::next", "Iterator::last", "str::chars", "str::bytes", "str::split")


NUM = ("lin", "min2", "max2", "sat", "mul", "div", "rem", "ovf", "not", "le0", "eq0", "cast", "fits", "getopt", "pay", "f64", "fbin", "shl", "shr", "bin", "wrap", "pow")
MEMO = {}


def bare(t):
    """the thresholds a number depends on, other than through how many elements something has"""
    r = MEMO.get(t)
    if r is None:
        if t.op == "fld" and t.a[1] == "threshold":
            r = frozenset([t])
        elif t.op == "lin":
            r = frozenset().union(*[bare(x) for x in lin_parts(t)[1]])
        elif t.op in NUM:
            r = frozenset().union(*[bare(x) for x in t.a if isinstance(x, T)])
        else:
            r = frozenset()
        MEMO[t] = r
    return r


def input_number(t):
    """a number that is given by the input: thresholds, constants, how many members something has"""
    c, d = lin_parts(t)
    return all(x.op == "fld" and x.a[1] == "threshold" or x.op == "len" and (plain(x.a[0]) or input_coll(x.a[0])) for x in d)


PLAIN = {}


def plain(x):
    """a part of the input as it is"""
    r = PLAIN.get(x)
    if r is None:
        if x.op == "call" and (x.a[0].startswith("serde_json::from") or x.a[0].endswith("::deserialize")):
            r = True
        elif x.op in ("fld", "pay", "getidx", "idx", "elem", "first", "rest", "slice") and isinstance(x.a[0], T):
            r = plain(x.a[0])
        elif x.op in ("lv", "phi", "coll", "out", "opaque", "dyncall", "call"):
            r = False
        else:
            r = all(plain(y) for y in inner(x.a))
        PLAIN[x] = r
    return r


def inner(a):
    for y in a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from inner(y)


def related(facts, ts):
    """some fact speaks about one of these numbers: it may bound them"""
    return any(speaks(k, t) for k, w in facts.items() for t in ts if not (t.op == "fld" and t.a[1] == "threshold" and weak(k, w)))


def speaks(k, t):
    if k.op in ("le0", "eq0"):
        return t in lin_parts(k.a[0])[1] or any(mentions(x, t) for x in lin_parts(k.a[0])[1] if x.op in NUM)
    if k.op in ("and", "or", "not"):
        return any(speaks(x, t) for x in k.a)
    if k.op in ("any", "is", "contains") or k.op == "call" and "str::" not in k.a[0] and "fits" not in k.a[0]:
        return False
    return mentions(k, t) or t.op == "len" and mentions(k, t.a[0])


def upto(t):
    """numbers that t does not exceed"""
    out = [t]
    if t.op == "len" and t.a[0].op == "coll":
        for p in t.a[0].a[1]:
            for k, g in p.a[1]:
                if k.op == "within" and g and k.a[0] == "take":
                    out.append(k.a[2])
            if len(p.a[2]) == 1:
                out += upto(length(p.a[2][0][0]))
    if t.op == "len" and t.a[0].op in ("slice", "rest"):
        out.append(length(t.a[0].a[0]))
    if t.op in ("min2",):
        for x in t.a:
            out += upto(x)
    if t.op == "sat" and t.a[0] == "sub":
        out += upto(t.a[1])
    return out


class Sites(ai.Hook):
    def __init__(self):
        self.got = []

    def add(self, kind, I, st, fr, span, *v):
        at = "%s:%s %s" % (span[0], span[1], fr.fn.short) if span else fr.fn.short
        facts = {}
        for k, w in st.facts.items():
            if k.op in ("str::ends_with", "str::starts_with") and w:
                facts[mk("eq0", length(k.a[0]))] = False
            facts[k] = w
        self.got.append((kind, v, facts, st.lossy, at, fr.fn.short, fr.fn.id))

    def check(self, I, st, fr, span, msg, cond):
        if span and not str(span[0]).startswith("src"):
            return
        m = str(msg)
        if m.startswith("Overflow("):
            self.add("overflow", I, st, fr, span, m[9:12], cond)
        elif m.startswith("narrow"):
            self.add("narrow", I, st, fr, span, m[7:], cond)
        elif m == "lookup":
            self.add("lookup", I, st, fr, span, cond)
        elif m == "index":
            self.add("index", I, st, fr, span, cond)
        elif "ByZero" in m:
            self.add("zero", I, st, fr, span, cond)

    def call(self, I, st, fr, span, name, fn, args):
        if fn is not None:
            return None
        op = name.split("::")[-1]
        if op in ALLOC and ALLOC[op] < len(args):
            self.add("alloc", I, st, fr, span, op, I.read(st, args[ALLOC[op]]))
        if op in LOOPS and args:
            x = I.read(st, args[0])
            if x.op == "range":
                self.add("alloc", I, st, fr, span, "range", x.a[1])
            elif x.op == "agg" and x.a[0].endswith("Range"):
                self.add("alloc", I, st, fr, span, "range", fld(x, "end"))
        if op in STRPOS and len(args) > 1:
            self.add("position", I, st, fr, span, name, I.read(st, args[0]), I.read(st, args[1]))
        return None

    def panic(self, I, st, fr, span, what):
        if span and not str(span[0]).startswith("src"):
            return
        self.add("panic", I, st, fr, span, what)


def ovf_args(c):
    if c.op == "not" and c.a[0].op == "ovf":
        return c.a[0].a[1:3]
    return None


def judge(s):
    """(rule, instance, verdict, message) of a site, None if it does not depend on the input numbers and names"""
    kind, v, facts, lossy, at, fn = s[:6]
    no = None if lossy else False
    if kind == "overflow":
        c = v[1]
        r = "arithmetic on numbers of the input does not overflow"
        if v[0] == "Sub":
            ab = ovf_args(c)
            if ab is None:
                if c is TRUE or c.op == "le0" and implied(facts, c):
                    return (r, fn + " -", True, "")
                return None
            a, b = ab
            ts = bare(a) | bare(b)
            num = input_number(a) and input_number(b)
            if not ts and not num:
                return None
            ok = implied(facts, not_(lt(a, b))) or any(x is y for x in upto(b) for y in [a]) or None
            if ok is None and num and not related(facts, [x for t in (a, b) for x in lin_parts(t)[1]]):
                ok = no
            return (r, fn + " -", ok, "%s - %s" % (show(a, 4), show(b, 4)))
        ab = ovf_args(c)
        if ab is None:
            return None
        ts = set()
        for x in ab:
            ts |= bare(x)
        if not ts:
            return None
        ok = bounded(ab[0], facts, lossy) and bounded(ab[1], facts, lossy)
        if ok is None and all(bounded(x, facts, lossy) is not None for x in ab):
            ok = False
        if ok is not True and (bounded(ab[0], facts, lossy) is False or bounded(ab[1], facts, lossy) is False):
            ok = False
        return (r, "%s %s" % (fn, {"Add": "+", "Mul": "*"}.get(v[0], v[0])), ok, "%s of %s" % (v[0], ", ".join(show(x, 4) for x in ab)))
    if kind == "narrow":
        if not bare(v[1]):
            return None
        return ("thresholds keep their full width", fn, bounded(v[1], facts, lossy) if bounded(v[1], facts, lossy) is not True else True, "%s as %s" % (show(v[1], 4), v[0]))
    if kind == "alloc":
        if not bare(v[1]):
            return None
        return ("sizes and repetitions are not given by a threshold alone", "%s %s" % (fn, v[0]), bounded(v[1], facts, lossy), "%s of %s" % (v[0], show(v[1], 4)))
    if kind == "zero":
        c = v[0]
        if c is TRUE or not (bare(c) or [x for x in subterms(c) if x.op == "len" and plain(x.a[0])]):
            return None
        return ("no division by a number of the input that may be 0", fn, True if implied(facts, c) else (None if related(facts, bare(c)) or not plainish(c) else no), show(c, 4))
    if kind == "index":
        x, i = fields(v[0])
        return index(x, i, facts, no, fn)
    if kind == "lookup":
        x, i = fields(v[0])
        ok = True if implied(facts, mk("contains", x, i)) else (no if plain(i) and plain(x) and not any(mentions(k, i) for k in facts) else None)
        return ("positions looked up exist", fn + " key", ok, "%s[%s]" % (show(x, 4), show(i, 4)))
    if kind == "position":
        name, x, i = v
        return position(name, x, i, facts, no, fn)
    if kind == "panic":
        return panicking(v[0], facts, no, fn)
    return None


def fields(t):
    return [fld(t, n) for n in ("0", "1")]


def plainish(c):
    return not any(x.op in ("lv", "phi", "out", "opaque", "dyncall", "undef") for x in subterms(c))


def bounded(t, facts, lossy):
    """t stays within how many members there are (or the like): True; it is as large as a threshold: False"""
    if t.op == "min2":
        rs = [bounded(x, facts, lossy) for x in t.a]
        return True if True in rs else (None if None in rs else False)
    if t.op == "max2":
        rs = [bounded(x, facts, lossy) for x in t.a]
        return False if False in rs else (None if None in rs else True)
    ts = bare(t)
    if not ts:
        return True
    if t.op == "sat" and t.a[0] == "sub":
        return bounded(t.a[1], facts, lossy)
    if t.op in ("sat", "div", "rem", "mul", "f64", "pay", "getopt"):
        rs = [bounded(x, facts, lossy) for x in t.a if isinstance(x, T)]
        return False if False in rs else (None if None in rs else True)
    c, d = lin_parts(t)
    verdict = True
    for x, n in d.items():
        if not bare(x):
            continue
        neg = n < 0 or n >= 1 << 63
        if x.op == "fld":
            if neg or found_cluster(x.a[0]):
                continue  # of a cluster that was found: its quorum set is satisfiable
            if any(k.op == "le0" and w and lin_parts(k.a[0])[1].get(x) == 1 and not bare(sub(k.a[0], x)) or
                   k.op == "eq0" and w and x in lin_parts(k.a[0])[1] and len(lin_parts(k.a[0])[1]) <= 2 and not bare(sub(k.a[0], mul(x, I(lin_parts(k.a[0])[1][x]))))
                   for k, w in facts.items() for k, w in [normal(k, w)]):
                continue
            verdict = None if any(mentions(k, x) and not weak(k, w) for k, w in facts.items()) else (None if lossy else False)
        else:
            r = bounded(x, facts, lossy) if x is not t else None
            if r is not True:
                verdict = r if verdict is True else verdict
        if verdict is False:
            return False
    return verdict


def found_cluster(x):
    """the quorum set of a symmetric cluster (and not of a node), or one in it"""
    while isinstance(x, T):
        if x.op == "first":
            return True
        if x.op == "fld" and x.a[1] == "quorum_set":
            return False
        if x.op not in ("fld", "elem", "pay", "getidx", "idx"):
            return False
        x = x.a[0]
    return False


def sub(a, b):
    return add(a, b, -1)


def normal(k, w):
    """a <= 0 as it holds: the negation of le0(t) is le0(1 - t)"""
    if k.op == "le0" and not w:
        return mk("le0", add(I(1), k.a[0], -1)), True
    return k, w


def weak(k, w):
    """a fact about a threshold that gives no upper bound: it is not 0"""
    return k.op == "eq0" and not w or k.op == "le0" and not [1 for x, n in lin_parts(normal(k, w)[0].a[0])[1].items() if n > 0 and n < 1 << 63 and bare(x)]


def text(x):
    """characters of the input"""
    return x.op == "coll" and x.a[0] == "str" or x.op in ("str",) or any(y.op == "fld" and y.a[1] in ("name", "isp", "country_name", "public_key", "country_code") for y in subterms(x))


def bounds(k, x, ends):
    """the fact may tell that a character begins at one of these positions"""
    if k.op in ("le0", "eq0"):
        return any(mentions(y, x) and y is not length(x) for y in lin_parts(k.a[0])[1])
    if not mentions(k, x):
        return False
    g = k.a[0] if k.op == "is" else k
    if isinstance(g, T) and g.op == "call" and any(n in g.a[0] for n in ("::get", "is_char_boundary", "get")) and g.a[1][0] is x:
        at = [y for z in g.a[1][1:] for y in subterms(z) if y.op == "int"]
        return not at or any(y in ends for y in at if y is not I(0))
    return True


def index(x, i, facts, no, fn):
    r = "positions looked up exist"
    if x is None:
        return None
    if i.op == "agg" and "Range" in i.a[0]:
        if not text(x):
            return None
        ok = None
        ends = [y for _, y in i.a[2]]
        if all(e is I(0) or e is length(x) for e in ends):
            ok = True
        elif all(plainish(e) for e in ends) and not any(y.op == "call" and "find" in y.a[0] or y.op == "within" for e in ends for y in subterms(e)) and not related(facts, [length(x)]):
            ok = no
        elif all(e.op == "int" for e in ends) and not any(bounds(k, x, ends) for k in facts):
            ok = no     # a length says nothing about where characters begin
        return (r, fn + " text", ok, "%s[%s]" % (show(x, 4), ", ".join(show(e, 3) for e in ends)))
    if i.op == "int":
        n = length(x)
        if implied(facts, lt(i, n)) or i is I(0) and implied(facts, not_(models.isempty(x))):
            return (r, "%s [%s]" % (fn, i.a[0]), True, "")
        if plain(x) or input_coll(x):
            return (r, "%s [%s]" % (fn, i.a[0]), None if related(facts, [n, x]) else no, "%s[%s]" % (show(x, 4), i.a[0]))
        return None
    return None


def input_coll(x):
    """a list that is as empty as a part of the input"""
    return x.op == "coll" and len(x.a[1]) == 1 and not x.a[2] and all(len(p.a[2]) == 1 and plain(p.a[2][0][0]) for p in x.a[1])


def position(name, x, i, facts, no, fn):
    ty = name.split("::")[0]
    if ty not in ("String", "str", "Vec", "slice", "VecDeque") or i.op not in ("int", "lin", "len", "fld") and i is not length(x):
        return None
    r = "positions looked up exist"
    op = name.split("::")[-1]
    need = lt(i, length(x)) if op in ("remove", "swap_remove") else not_(lt(length(x), i))
    if implied(facts, need) or i is length(x) and op not in ("remove", "swap_remove") or i is I(0) and op not in ("remove", "swap_remove"):
        return (r, "%s %s" % (fn, op), True, "")
    if ty in ("String", "str") or plain(x) or input_coll(x):
        ok = None if related(facts, [length(x), x]) or not plainish(x) else no
        return (r, "%s %s" % (fn, op), ok, "%s of %s at %s" % (op, show(x, 4), show(i, 3)))
    return None


def panicking(what, facts, no, fn):
    """failing for a value of the input that is not there or is of another form"""
    r = "no value of the input makes an operation fail"
    last = list(facts.items())[-1:] if facts else []
    if not what.endswith(("::unwrap", "::expect")):
        if what.endswith("exit"):
            return None
        for k, w in last:
            if k.op in ("le0", "eq0") and lin_parts(k.a[0])[1] and input_number(k.a[0]) and (len(lin_parts(k.a[0])[1]) == 1 or not any(x.op == "len" and x.a[0].op == "coll" and "set" in str(x.a[0].a[0]) for x in lin_parts(k.a[0])[1])):
                return (r, fn, no, "panics if %s%s" % ("" if w else "not ", show(k, 5)))
            if k.op == "any" and not w and all(len(p.a[2]) == 1 and plain(p.a[2][0][0]) and text(p.a[2][0][0]) for p in k.a[0]):
                return (r, fn, no, "panics if not %s" % show(k, 5))
            if k.op in ("str::is_empty", "str::ends_with", "str::starts_with", "str::contains") and text(k.a[0]):
                return (r, fn, no, "panics if %s%s" % ("" if w else "not ", show(k, 5)))
        return None
    for k, w in last:
        if k.op == "is" and not w or k.op == "is" and k.a[1] in ("None", "Err") and w:
            x = k.a[0]
            while x.op in ("pay", "fld", "first") and isinstance(x.a[0], T):
                x = x.a[0]
            if x.op == "call" and any(x.a[0].endswith(n) for n in STRFAIL) and x.a[1] and text(x.a[1][0]):
                return (r, fn, None if related(dict(list(facts.items())[:-1]), [x.a[1][0]]) else no, "%s of %s" % (what, show(k.a[0], 4)))
            if x.op == "narrow" or x.op == "call" and "try_from" in x.a[0] and any(bare(y) for y in x.a[1]):
                return (r, fn, None, "")
        if k.op == "eq0" and w and k.a[0].op == "len":
            x = k.a[0].a[0]
            if implied(dict(list(facts.items())[:-1]), lt(I(0), k.a[0])):
                return (r, fn, True, "")
            if text(x) or plain(x) or input_coll(x):
                # first(), last(), next() of something that may be empty
                return (r, fn, no, "%s: %s may be empty" % (what, show(x, 4)))
        if k.op == "fits" and not w and bare(k):
            wide = str(k.a[1]) in ("usize", "u64", "u128", "i128") if len(k.a) > 1 else True
            return (r, fn, True if wide else no, "%s of %s" % (what, show(k, 4)))
    return None


def roots(prog):
    fs = [f for f in prog.fns.values() if f.crate == "fbas_analyzer" and any(m in f.id for m in MODS) and f.kind not in ("Closure", "Promoted") and "{closure" not in f.id and "::io::graph" not in f.id
          and not f.derived and "structopt" not in f.id]
    callers = callers_of(prog)
    out = []
    for f in fs:
        up = callers.get(f.id, ())
        if any(f.short.startswith(s) for s in SLOW):
            continue
        if not up or f.vis or any(g.file != f.file for g in up):
            out.append(f)
    return fs, out


def check(ctx):
    prog = ctx.prog
    fs, rs = roots(prog)
    ctx.floor("functions analysed", len(rs), 40)
    best = {}
    for f in rs:
        collect(ctx, f, best)
    # paths through large functions are merged: a site on such paths is judged in its own function and each of its direct callers
    local, calledby = {}, None
    for k, (ok, at, msg, maybe, fid) in sorted(best.items(), key=lambda x: str(x[0])):
        if ok is None and maybe:
            if calledby is None:
                calledby = callers_of(prog)
            fs_ = [prog.fns[fid]] + sorted((g for g in calledby.get(fid, ()) if g.crate == "fbas_analyzer"), key=lambda g: g.id)
            rs_ = []
            for g in fs_:
                while "{closure" in g.id and g.parent in prog.fns:
                    g = prog.fns[g.parent]
                if g.id not in local:
                    local[g.id] = {}
                    collect(ctx, g, local[g.id])
                r = local[g.id].get(k)
                rs_.append(r[0] if r else None)
            if all(r is False for r in rs_):
                ok = False
        ctx.hold(k[0], k[2], ok, at, msg, key="%s/%s" % (k[0].split()[0], k[2].replace(" ", "_")))
    ctx.floor("sites found", len(best), 6)
    widths(ctx)


def collect(ctx, f, best):
    """the worst verdict on each site reached from f"""
    h = Sites()
    ctx.run(f, hooks=[h])
    rank = {False: 2, None: 1, True: 0}
    for s in h.got:
        j = judge(s)
        if j is None:
            continue
        rule, inst, ok, msg = j
        # would it be a violation if no conditions were lost?
        maybe = ok is False or ok is None and s[3] and judge(s[:3] + (False,) + s[4:])[2] is False or ok is None and s[0] == "lookup" and plain(fields(s[1][0])[1])
        k = (rule, s[4], inst)
        old = best.get(k)
        if old is None or (rank[ok], maybe) > (rank[old[0]], old[3]):
            best[k] = (ok, s[4], msg, maybe, s[6])


def callers_of(prog):
    callers = {}
    for f in prog.fns.values():
        for c in callees(prog, f):
            if c != f.id:
                callers.setdefault(c, set()).add(f)
    return callers


def widths(ctx):
    r = "thresholds keep their full width"
    for a in ctx.prog.adts.values():
        if a["crate"] == "fbas_analyzer" and a["n"] in ("RawQuorumSet", "QuorumSet"):
            for _, fields in a["v"]:
                for n, t, _ in fields:
                    if n == "threshold":
                        t = tystr(t)
                        ctx.hold(r, "%s.threshold" % a["n"], True if t in ("u64", "usize", "u128") else (False if t in ("u8", "u16", "u32", "i8", "i16", "i32", "i64", "isize", "f32") else None), a["n"], t, key="width/" + a["n"])
