"""Graph files: the lines written for each pair of nodes, composed with what the reader makes of such lines."""
from p12 import *

LINK = ("Graph::from_as_rel_string", "Graph::to_as_rel_string")
PUSH = ("push_str", "write_fmt", "write_str", "extend", "push", "add_assign", "write_all")


I_0 = I(0)


class Pushed(ai.Hook):
    def call(self, I, st, fr, span, name, fn, args):
        op = name.split("::")[-1]
        if op in PUSH and len(args) > 1:
            I.event("text", I.read(st, args[1]), dict(st.facts), tuple(st.open), st.lost)
        if op in ("resize_with", "resize", "truncate", "clear", "drain", "split_off") and fn is None and args[0].op == "ref":
            I.event("size", op, I.read(st, args[0]), args[1] if len(args) > 1 else I_0, dict(st.facts), st.lost)
        if op in ("insert", "push", "replace") and len(args) > 1:
            I.event("insert", args[0], args[1], dict(st.facts), tuple(st.open), st.lost)
        return None


def linetext(v):
    """(first, second, code) of a line of text a|b|code, None if it is none"""
    if v.op != "fmt":
        return None
    parts, cur = [[]], None
    for x in v.a[0]:
        if x.op == "str":
            bits = x.a[0].split("|")
            for i, b in enumerate(bits):
                if i:
                    parts.append([])
                if b:
                    parts[-1].append(b)
        else:
            parts[-1].append(x)
    if len(parts) < 3:
        return None
    one = lambda p: p[0] if len(p) == 1 else None
    code = parts[2]
    if len(code) == 2 and code[1] == "\n":
        code = code[:1]
    c = one(code)
    ended = len(parts[-1]) > 0 and isinstance(parts[-1][-1], str) and parts[-1][-1].endswith("\n")
    if isinstance(c, str):
        c = c.strip()
    elif isinstance(c, T):
        c = c.a[0] if c.op == "disp" else c
        c = str(c.a[0]) if c.op in ("int", "str") else c
    u = lambda x: x.a[0] if isinstance(x, T) and x.op == "disp" else (x if isinstance(x, T) else None)
    return u(one(parts[0])), u(one(parts[1])), c, ended


def field_no(t):
    """which of the fields of a line a value was parsed from: (number, line)"""
    if t.op in ("pay",) and t.a[0].op == "call" and t.a[0].a[0].endswith("str::parse"):
        return field_no(t.a[0].a[1][0])
    if t.op == "parse":
        return field_no(t.a[0])
    if t.op == "pay":
        return field_no(t.a[0])
    if t.op == "call" and t.a[0].split("::")[-1] in ("trim", "trim_end", "trim_start", "parse", "from_str"):
        return field_no(t.a[1][0])
    n = 0
    if t.op == "first":
        t = t.a[0]
    elif t.op == "idx" and t.a[1].op == "int":
        n, t = t.a[1].a[0], t.a[0]
    else:
        return None
    while t.op == "rest":
        n += 1
        t = t.a[0]
    if t.op == "slice" and t.a[1].op == "int":
        n += t.a[1].a[0]
        t = t.a[0]
    if t.op in ("split", "splitn") or t.op == "call" and "split" in t.a[0]:
        src = t.a[0] if t.op != "call" else t.a[1][0]
        return n, src
    if t.op == "coll" and len(t.a[1]) == 1 and len(t.a[1][0].a[2]) == 1:
        e, g, b = t.a[1][0].a
        if e is elem(*b[0]) and not g:
            return field_no(mk("first", b[0][0])) and (n, field_no(mk("first", b[0][0]))[1])
    return None


def reader(ctx):
    """what a line contributes: code -> set of (from field, to field) or None"""
    f = ctx.fn("Graph::from_as_rel_string")
    if not ctx.anchor("Graph::from_as_rel_string", f):
        return None
    h = Pushed()
    I_x, outs, a = ctx.run(f, hooks=[h])
    text = a[0]
    rule = "each line read contributes exactly the edge it states"
    got = {}
    codes = set()
    alls = []
    dom = [e for e in I_x.events if e[0] == "insert"]
    n = 0
    for _, ref, v, facts, opn, lossy in dom:
        src = None
        if ref.op == "ref" and len(ref.a) > 1 and ref.a[1] and ref.a[1][-1][0] == "i":
            src = field_no(ref.a[1][-1][1])
        dst = field_no(v)
        if src is None and dst is None:
            continue
        n += 1
        if src is None or dst is None or src[1] is not dst[1]:
            ctx.hold(rule, "insertion", None)
            alls.append(None)
            continue
        line = src[1]
        ln = [b for b in opn if elem(*b) is line and b[0].op == "lines" and b[0].a[0] is text]
        if not ln:
            bad = opn and elem(*opn[-1]) is line and opn[-1][0].op in ("rest", "slice") and clear(opn[-1][0])
            ctx.hold(rule, "all lines are read", False if bad else None, where(f), "reads " + show(opn[-1][0], 5) if opn else "", key="read/lines")
            alls.append(None)
            continue
        ctx.hold(rule, "all lines are read", True)
        code, rest = code_of(facts, line)
        ok = []
        for k, w in rest:
            r = harmless(k, w, line)
            ok.append(r)
            if r is not True:
                ctx.hold(rule, "lines read", False if r is False and not lossy else None, where(f), "only under %s%s" % ("" if w else "not ", show(k, 8)), key="read/cond")
        if all(ok):
            ctx.hold(rule, "lines read", True)
        if code is None:
            alls.append(None)
        for c in code or ("0", "-1"):
            got.setdefault(c, set()).add((src[0], dst[0]))
    for t, *r in I_x.events:
        if t != "size":
            continue
        op, old, k, facts, lossy = r
        ok = None
        if op in ("resize", "resize_with"):
            n0 = length(old)
            ok = True if k is n0 or k.op == "max2" and n0 in k.a or implied(facts, not_(lt(k, n0))) else (False if clear_lv(k) and not lossy and all(not mentions(x, n0) for x in facts) else None)
        ctx.hold("edges read before are kept", op, ok, where(f), "%s to %s" % (op, show(k, 5)), key="read/kept")
    if not n:
        ctx.hold(rule, "insertions", None)
        return None
    for st, v in outs:
        o = F(v, "outlinks") if v.op == "agg" else None
        if o is None:
            ctx.hold("the graph read holds every edge inserted", f.short, None)
            continue
        ok = True if o.op == "lv" else None
        if o.op == "coll":
            ok = True if len(o.a[1]) == 1 and not o.a[1][0].a[1] else None
            if any(clear_lv(k) for p in o.a[1] for k, g in p.a[1]) and len(o.a[1]) == 1:
                ok = False
            for p in o.a[1]:
                x = p.a[0]
                if len(p.a[2]) != 1:
                    ok = ok and None
                    continue
                e = elem(*p.a[2][0])
                if x is e or x.op == "coll" and len(x.a[1]) == 1 and x.a[1][0].a[0] is elem(e) and not x.a[1][0].a[1]:
                    continue
                if x.op in ("rest", "slice") and x.a[0] is e or x.op == "coll" and x.a[1] and all(g and clear_lv(k) for q in x.a[1] for k, g in q.a[1]) and all(q.a[1] for q in x.a[1]):
                    ok = False
                else:
                    ok = ok and None
        ctx.hold("the graph read holds every edge inserted", f.short, ok, where(f), show(o, 5)[:200], key="read/result")
    if None in alls:
        return None
    return got


def clear_lv(k):
    return not any(x.op in ("phi", "opaque", "undef", "out", "unk", "dyncall") for x in subterms(k))


def code_of(facts, line):
    """the codes under which these facts hold, and the other facts about the line"""
    codes = {"0", "-1"}
    rest = []
    for k, w in facts.items():
        if not mentions(k, line):
            continue
        c = codetest(k, line)
        if c is not None:
            codes = {x for x in codes if (x == c) == w}
            continue
        rest.append((k, w))
    return codes, rest


def codetest(k, line):
    """k: the third field is the code returned"""
    if k.op == "eq0":
        c, d = lin_parts(k.a[0])
        if len(d) == 1:
            (x, m), = d.items()
            fn = field_no(x)
            if fn and fn[0] == 2 and fn[1] is line:
                v = -c * m
                v = v - (1 << 32) if v >= 1 << 31 else v
                return str(v)
    if k.op == "eq":
        for x, y in (k.a, k.a[::-1]):
            fn = field_no(x)
            if fn and fn[0] == 2 and fn[1] is line and y.op == "str":
                return y.a[0]
    return None


def harmless(k, w, line):
    """a condition every well-formed line meets: True; one that leaves out such lines: False"""
    if k.op == "within":
        return False if w and k.a[0] in ("skip", "take", "step_by") and clear(k.a[1], k.a[2]) else None
    if k.op == "eq0" and k.a[0].op == "len":
        x = k.a[0].a[0]
        if x is line or field_no(mk("first", x)):
            return w is False
    if k.op == "str::starts_with" or k.op == "call" and k.a[0].endswith("starts_with"):
        a = k.a if k.op != "call" else k.a[1]
        if a[0] is line or mentions(a[0], line) and "trim" in str(a[0]):
            return w is False if a[1] in (I(35), mk("str", "#")) else (False if a[1].op in ("int", "str") else None)
        return None
    if k.op == "is":
        return True if w == (k.a[1] in ("Ok", "Some")) else None
    if k.op == "le0":
        c, d = lin_parts(k.a[0])
        if all(x.op == "len" for x in d):
            return True
        if all(field_no(x) for x in d):
            return False  # depends on the numbers of the nodes
    if k.op == "eq0":
        c, d = lin_parts(k.a[0])
        if d and all(field_no(x) for x in d):
            return False
    if k.op in ("fits",):
        return True
    return None


def writer(ctx):
    f = ctx.fn("Graph::to_as_rel_string")
    if not ctx.anchor("Graph::to_as_rel_string", f):
        return None, None, f
    h = Pushed()
    I_x, outs, a = ctx.run(f, hooks=[h])
    G = a[0]
    L = F(G, "outlinks")
    rule = "each edge of the graph is written"
    lines = []
    seen = set()
    cand = [(v, list(facts.items()), opn, lossy) for t, *r in I_x.events if t == "text" for v, facts, opn, lossy in [r]]
    if not any(linetext(v) for v, *_ in cand):
        for st, v in outs:
            for c in subterms(v):
                if c.op == "coll":
                    for p in c.a[1]:
                        cand.append((p.a[0], list(p.a[1]), tuple(p.a[2]), st.lost))
    for v, facts, opn, lossy in cand:
        t = linetext(v)
        if t is None:
            continue
        key = (v, frozenset(facts), opn)
        if key in seen:
            continue
        seen.add(key)
        lines.append((t, facts, opn, lossy))
    if not lines:
        ctx.hold(rule, f.short, None)
        return None, None, f
    out = []
    for t, facts, opn, lossy in lines:
        i = j = None
        if len(opn) >= 2:
            b1, b2 = opn[-2], opn[-1]
            e = elem(*b1)
            if b1[0] is L and b2[0] is e:
                i, j = pos(L, e), elem(*b2)
            elif b1[0].op == "range" and b2[0] is getidx(L, e):
                lo, hi = b1[0].a[:2]
                if lo is not I(0) or hi is not length(L):
                    ctx.hold(rule, "all nodes", False if clear(lo, hi) and b1[0] is not L else None, where(f), "for " + show(b1[0], 5), key="write/nodes")
                i, j = e, elem(*b2)
            elif b1[0].op in ("rest", "slice") and b1[0].a[0] is L or b2[0].op in ("rest", "slice") and b2[0].a[0] in (e, getidx(L, e)):
                ctx.hold(rule, "all edges", False, where(f), "written for %s" % show(b2[0] if b1[0] is L else b1[0], 4), key="write/all")
        if i is None:
            ctx.hold(rule, "line", None)
            return None, None, f
        part_ = [k for k, w in facts if k.op == "within" and w and k.a[0] in ("skip", "take", "step_by") and clear(*[x for x in k.a[1:] if isinstance(x, T)]) and mentions(k, L)]
        ctx.hold(rule, "all edges", not part_, where(f), "only those with " + (show(part_[0], 5) if part_ else ""), key="write/all")
        ctx.hold("every line written is complete", "line", t[3], where(f), "does not end the line", key="write/newline")
        out.append((t, facts, i, j, lossy))
    return out, L, f


def table(k, i, j, L, env):
    """truth of a condition for a pair of nodes; env: order 'lt','eq','gt' of i and j, back: j links to i"""
    if k.op == "not":
        r = table(k.a[0], i, j, L, env)
        return None if r is None else not r
    if k.op in ("and", "or"):
        rs = [table(x, i, j, L, env) for x in k.a]
        stop = k.op == "or"
        return stop if stop in rs else (None if None in rs else not stop)
    if k.op == "contains":
        if k.a[0] is getidx(L, j) and k.a[1] is i:
            return env["back"]
        if k.a[0] in (getidx(L, i), elem(L)) and k.a[1] is j:
            return True
        for x, n in ((i, "selfi"), (j, "selfj")):
            if k.a[1] is x and k.a[0] in ((getidx(L, x), elem(L)) if x is i else (getidx(L, x),)):
                return True if env["order"] == "eq" else env[n]
        return None
    if k.op == "any" and len(k.a[0]) == 1:
        p = k.a[0][0]
        if len(p.a[2]) == 1 and p.a[2][0][0] is getidx(L, j) and len(p.a[1]) == 1:
            (g, w), = p.a[1]
            if w and g.op in ("eq", "eq0") and mentions(g, i) and mentions(g, elem(*p.a[2][0])):
                return env["back"]
        return None
    if k.op in ("le0", "eq0"):
        c, d = lin_parts(k.a[0])
        if set(d) == {i, j} and d[i] == -d[j] and abs(d[i]) == 1:
            # sign * (i - j) + c
            v = {"lt": -1, "eq": 0, "gt": 1}[env["order"]] * d[i]
            if k.op == "eq0":
                return (v == 0) if c == 0 else (None if v else False)
            if v < 0:
                return True if c <= 1 else None
            if v == 0:
                return c <= 0
            return False if c >= 0 else None
        return None
    if k.op == "is" and not mentions(k, i) and not mentions(k, j):
        return Ellipsis  # whether there is a comment and the like
    return None


def readback(ctx, got, lines, L, f, visits, own):
    """the edges read back of those between two nodes (own: which of the nodes link to themselves)"""
    edges, unknown = set(), False
    for n, (o, b) in enumerate(visits):
        for t, facts, i, j, lossy in lines:
            rs = []
            for k, w in facts:
                r = table(k, i, j, L, {"order": o, "back": b, "selfi": own[n], "selfj": own[1 - n]})
                if r is Ellipsis:
                    continue
                rs.append(None if r is None else r == w)
            if False in rs:
                continue
            if None in rs or lossy:
                unknown = True
            flip = n == 1  # the other node of the pair is visited
            nm = {i: "b" if flip else "a", j: "a" if flip else "b"}
            ab = [nm.get(x) if isinstance(x, T) else None for x in t[:2]]
            if None in ab or not isinstance(t[2], str):
                unknown = True
                continue
            for s, d in got.get(t[2], ()):
                if s > 1 or d > 1:
                    unknown = True
                    continue
                edges.add((ab[s], ab[d]))
            if t[2] not in got:
                ctx.hold("the relationship codes written are understood by the reader", t[2], False, where(f), "the code %s is not read" % t[2], key="code/" + t[2])
    return edges, unknown


def compose(ctx, got, lines, L, f):
    rule = "writing a graph and reading it again gives the same edges"
    cases = {"directed": [("lt", False), ("gt", False)], "undirected": [("lt", True)], "self": [("eq", True)]}
    for name, cs in cases.items():
        for order, back in cs:
            visits = [(order, back)]
            if back and order != "eq":
                visits.append(({"lt": "gt", "gt": "lt"}[order], True))
            if order == "eq":
                want = {("a", "a")}
            else:
                want = {("a", "b")} | ({("b", "a")} if back else set())
            res = []
            for own in ((False, False),) if order == "eq" else ((False, False), (True, False), (False, True), (True, True)):
                edges, unknown = readback(ctx, got, lines, L, f, visits, own)
                if order == "eq":
                    edges = {("a", "a") for _ in edges}
                res.append((None if unknown else edges == want, edges))
            ok = False if any(r is False for r, _ in res) else (None if any(r is None for r, _ in res) else True)
            edges = next(e for r, e in res if r is ok)
            how = "lost" if not edges else ("reversed" if edges == {(y, x) for x, y in want} else "changed")
            ctx.hold(rule, "%s edges%s" % (name, {"lt": ", to a higher ID", "gt": ", to a lower ID", "eq": ""}[order] if name == "directed" else ""), ok, where(f),
                     "an edge a -> b%s is read back as %s" % (" with b -> a" if back and order != "eq" else "", ", ".join("%s -> %s" % x for x in sorted(edges)) or "nothing"),
                     key="roundtrip/%s/%s" % (name, how))


def failures(ctx):
    f = ctx.fn("Graph::to_as_rel_file")
    if not ctx.anchor("Graph::to_as_rel_file", f):
        return
    r = "an error of writing the graph file is returned"
    h = IO("Graph::to_as_rel_string")
    I_x, outs, a = ctx.run(f, hooks=[h])
    # every outcome that ends well knows of the success of every step
    steps = {}
    for name, t, w in h.seen:
        steps.setdefault(name, []).append((t, w))
    written = False
    for st, v in outs:
        good = isvar(v, "Ok")
        if good is TRUE:
            good = True
        elif good is FALSE:
            continue
        else:
            good = None
        marks = [m for m in st.marks if isinstance(m, tuple) and m[0] == "io"]
        for _, name, t, w in marks:
            k = implied(st.facts, isvar(t, "Ok"))
            ok = True if k or v is t else (None if good is None and mentions(v, t) or st.lossy and k is None else False)
            ctx.hold(r, name, ok, w, "%s succeeds whatever %s returns" % (f.short, name), key="error/" + name)
        names = {m[1].split("::")[-1] for m in marks}
        if good is not None:
            done = "finish" in names or "try_finish" in names
            made = any(n in names for n in ("create", "open"))
            wrote = [m for m in marks if m[1].split("::")[-1] in ("write_all", "write_fmt")]
            other = bool([1 for x in subterms(v) if x.op == "dyncall"])
            if made and wrote and "BzEncoder" in str([show(x[2], 6) for x in wrote]):
                ctx.hold(r, "the compressed stream is finished", done or None if any("flush" in n or "drop" in n for n in names) else done, where(f), "errors on closing the compressed stream go unseen", key="error/finish")
            if made and not wrote:
                ctx.hold(r, "the text is written", None)
            for m in wrote:
                txt = m[2].a[1][1] if m[2].op == "call" and len(m[2].a[1]) > 1 else None
                if txt is not None:
                    ok = True if any(c == "Graph::to_as_rel_string" for c in calls(txt)) else (None if calls(txt) or not clear(txt) else False)
                    ctx.hold("the file holds the text of the graph", "written text", ok, where(f), show(txt, 5), key="file/text")
                    if ok:
                        t = [x for x in subterms(txt) if x.op == "call" and x.a[0] == "Graph::to_as_rel_string"][0]
                        ctx.hold("the file holds the text of the graph", "graph and comment", t.a[1] == (a[0], a[2]) or (None if not clear(t) else False), where(f), show(t, 4), key="file/args")


class IO(ai.Hook):
    def __init__(self, *names):
        self.names, self.seen = names, []

    def opaque(self, I, fn):
        return fn.short in self.names

    def ret(self, *a):
        return None

    def call(self, I, st, fr, span, name, fn, args):
        op = name.split("::")[-1]
        if name.endswith(("File::create", "File::create_new", "OpenOptions::open", "fs::write")) or op in ("write_all", "finish", "try_finish", "flush", "sync_all", "write_fmt"):
            vs = tuple(I.read(st, x) for x in args)
            t = mk("call", name, vs)
            st.marks = frozenset(st.marks) | {("io", name, t, "%s:%s %s" % (span[0], span[1], fr.fn.short) if span else "")}
            self.seen.append((name, t, ""))
        return None


def reading(ctx):
    """a file is read compressed or as it is, and as a whole"""
    f = ctx.fn("Graph::from_as_rel_file")
    if not ctx.anchor("Graph::from_as_rel_file", f):
        return
    r = "the graph is read from the text of the given file"
    I_x, outs, a = ctx.run(f, hooks=[Opaque("Graph::from_as_rel_string")])
    for st, v in outs:
        if v.op != "call" or v.a[0] != "Graph::from_as_rel_string":
            ctx.hold(r, f.short, None)
            continue
        txt = v.a[1][0]
        opens = [x for x in subterms(txt) if x.op == "call" and x.a[0].endswith("File::open")]
        ok = True if opens and all(x.a[1][0] is a[0] for x in opens) and any("read_to_string" in c for c in calls(txt)) else None
        if txt.op not in ("out", "pay"):
            ok = None if not clear(*[x for x in txt.a if isinstance(x, T)]) or txt.op != "call" else ok
        ctx.hold(r, f.short, ok, where(f), show(txt, 6), key="read/file")


def check(ctx):
    got = reader(ctx)
    lines, L, f = writer(ctx)
    if got and lines:
        compose(ctx, got, lines, L, f)
    else:
        ctx.hold("writing a graph and reading it again gives the same edges", "", None)
    failures(ctx)
    reading(ctx)
