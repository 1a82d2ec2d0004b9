"""Bulk output files: effects on files and their order, the rows written, and the fate of every I/O error, from main on."""
import re
from p11 import *
from p17 import calls_of

WRITERS = ("Writer::from_path", "File::create", "File::create_new", "fs::write", "File::options", "OpenOptions::open", "fs::copy", "fs::rename",
           "fs::remove_file")
TOOLS = {BULK: ("label",), PERF: ("top_tier_size", "run")}
READ = ("Reader::from_path",)
ROWIO = ("serialize", "write_record", "flush", "into_inner", "write_byte_record", "write_all")


class Main(ai.Hook):
    """main with everything of the tool inlined except making the inputs and the analysis itself"""

    def __init__(self, crate, keep=()):
        self.crate, self.keep = crate, keep
        self.makers, self.rows, self.flush, self.lists, self.io, self.straight = [], [], [], [], [], []
        self.sorts = 0

    def opaque(self, I, fn):
        return fn.crate != self.crate or fn.short in ("analyze", "extract_inputs", "generate_inputs") or fn.id in self.keep

    def call(self, I, st, fr, span, name, fn, args):
        op = name.split("::")[-1]
        vs = [I.read(st, a) for a in args]
        where = "%s:%s %s" % (span[0], span[1], fr.fn.short) if span else ""
        if op.startswith("sort"):
            self.sorts += 1
        if name.endswith(WRITERS):
            self.makers.append((name, vs, dict(st.facts), where, "collected" in st.marks, st.lossy, dict(st.cells)))
        elif name.startswith(("Writer::", "csv::")) or op in ("serialize", "flush", "into_inner", "write_all"):
            self.io.append((name, vs, dict(st.facts), where))
            if op in ("serialize", "write_record") and len(vs) > 1:
                self.rows.append((vs[1], dict(st.facts), st.open, where, st.lossy))
            if op in ("flush", "into_inner"):
                self.flush.append((vs[0], dict(st.facts), where))
        elif name.startswith("Reader::") or fn is not None and fn.id in self.keep:
            self.io.append((name, vs, dict(st.facts), where))
        if not st.open and (name.startswith(("Writer::", "Reader::", "File::", "fs::")) or fn is not None and fn.id in self.keep):
            self.straight.append((name, vs, dict(st.facts), where))
        if fn is not None or op not in ("next",):
            for v in vs:
                if v.op == "coll" and v.a[1]:
                    self.lists.append((op, v, dict(st.facts)))
        if op in ("collect", "from_iter") and vs and vs[0].op == "coll" and "analyze" in calls(vs[0]):
            st.marks = frozenset(st.marks) | {"collected"}
        return None


def doesio(prog, f):
    todo, seen = [f.id], {f.id}
    while todo:
        g = prog.fns.get(todo.pop())
        if g is None:
            continue
        for info, span, t in calls_of(g):
            p = info["res"] or info["p"]
            if p in prog.fns:
                if p not in seen and prog.fns[p].crate == f.crate:
                    seen.add(p)
                    todo.append(p)
            elif re.search(r"csv::(reader|writer)|^std::fs::", p):
                return True
    return False


def term(t, name):
    return [x for x in subterms(t) if x.op == "call" and x.a[0].endswith(name)]


def isrow(x):
    """x is a row read from the file, unchanged"""
    return x.op == "pay" and x.a[1] == "Ok" and x.a[0].op == "elem" and term(x.a[0], "deserialize") and x.a[0].a[0].op == "call" or \
        x.op == "elem" and x.a[0].op == "call" and "deserialize" in x.a[0].a[0]


def tool(ctx, crate, keys):
    f = ctx.fn("main", crate)
    if not ctx.anchor("main of " + crate, f):
        return
    H = Main(crate)
    I, outs, a = ctx.run(f, hooks=[H])
    arg = [x for _, _, fs, _, _, _, _ in H.makers for k in fs for x in term(k, "from_args")]
    if not arg:
        ctx.hold("the output file is written from main", crate, None)
        return
    A = arg[0]
    upd = F(A, "update")
    files(ctx, crate, H, upd)
    rows(ctx, crate, H, A, upd, keys, f)
    order(ctx, crate, H, keys, f)
    errors(ctx, crate, H, outs, f)
    # the same for every function of the tool on its way, its callees being kept apart
    fns = [g for g in ctx.prog.fns.values() if g.crate == crate and g.kind in ("Fn", "AssocFn") and not g.derived]
    io = {g.id for g in fns if doesio(ctx.prog, g) and "Result" in tystr(g.retty())}
    for g in sorted(fns, key=lambda g: g.id):
        if g.id in io:
            h = Main(crate, io - {g.id})
            I, outs, a = ctx.run(g, hooks=[h])
            errors(ctx, crate, h, outs, g, tuple(x.short for x in fns if x.id in io))



def files(ctx, crate, H, upd):
    r = "an existing file is opened for writing only with the update option"
    r2 = "what replaces an existing file is complete before the file is touched"
    for name, vs, facts, w, col, lossy, cells in H.makers:
        inst = "%s in %s" % (name, w.split()[-1])
        key = "guard/%s/%s" % (crate, name)
        if implied(facts, upd) is True:
            ctx.hold(r, inst, True)
            if not col:
                data = [v for v in cells.values() if isinstance(v, T) and v.op == "coll" and "analyze" in calls(v)]
                kinds = {v.a[0] for v in data}
                ok = True if "vec" in kinds and not "iter" in kinds else (False if kinds == {"iter"} else None)
                ctx.hold(r2, inst, ok, w, "the analyses run while the file is being written", key="truncate/%s/%s" % (crate, name))
            else:
                ctx.hold(r2, inst, True)
            continue
        if name.endswith("create_new"):
            ctx.hold(r, inst, True)
            continue
        p = vs[0]
        ex = [k for k in facts if k.op == "call" and k.a[0].split("::")[-1] in ("exists", "try_exists") and mentions(k, p)]
        if any(implied(facts, k) is False for k in ex):
            ctx.hold(r, inst, True)
        else:
            # under the alternatives kept in the facts
            other = any(x.op == "call" and x.a[0].split("::")[-1] in ("exists", "is_file", "metadata", "try_exists", "symlink_metadata", "is_ok") and mentions(x, p)
                        for k in facts for x in subterms(k))
            hidden = other and (not ex or lossy)
            ctx.hold(r, inst, None if hidden or not clear(p) or not name.endswith(("from_path", "create", "fs::write")) else False, w, "opened for writing though it may exist and no update was asked for", key=key)
    ctx.floor("places where the output file is opened (%s)" % crate, len(H.makers), 1)


def rows(ctx, crate, H, A, upd, keys, f):
    r = "every existing row is written with all its values and every other input is analyzed"
    seen = {True: {"new": False, "old": False}, False: {"new": False, "old": False}}
    mode = lambda fs: implied(fs, upd)
    unclear = False
    for v, fs, extra, w, lossy in written_rows(H, f):
        u = mode(fs)
        if isrow(v):
            x = v
            e = x.a[0] if x.op == "pay" else x
            guards = extra + [(k, g) for k, g in fs.items() if mentions(k.a[1] if k.op == "contains" else k, e) and not term(k, "::serialize") and not term(k, "flush") and k.op not in ("any", "find")]
            bad = [(k, g) for k, g in guards if not (k.op == "is" and k.a[0] is e)]
            ok = True if not bad else (False if clear(*[k for k, _ in bad]) and not lossy else None)
            ctx.hold(r, "existing rows (%s)" % crate, ok, w, "only under %s" % "; ".join(show(k, 6) for k, _ in bad), key="row/%s/cond" % crate)
            for m in (True, False):
                if u in (m, None) and ok is not False:
                    seen[m]["old"] = True
        elif v.op == "call" and v.a[0].split("::")[-1] == "analyze":
            x = v.a[1][0]
            if x.op != "elem" or not (term(x, "extract_inputs") or term(x, "generate_inputs")):
                bad = clear(x) and isrow_inside(x)
                ctx.hold(r, "new rows (%s)" % crate, False if bad else None, w, "analyzes " + show(x, 6), key="row/%s/what" % crate)
                continue
            guards = extra + [(k, g) for k, g in fs.items() if mentions(k.a[1] if k.op == "contains" else k, x) and not term(k, "::serialize") and not term(k, "flush") and k.op not in ("any", "find")]
            bad = []
            for k, g in guards:
                if k.op == "contains" and g is False and samekey(k, x, keys):
                    continue
                bad.append((k, g))
            ok = True if not bad else (False if clear(*[k for k, _ in bad]) and not lossy and not any(z.op in ("phi", "dyncall") for k, _ in bad for z in subterms(k)) else None)
            if ok is False and not understood(bad):
                ok = None
            ctx.hold(r, "new rows (%s)" % crate, ok, w, "only under %s" % "; ".join("%s%s" % ("" if g else "not ", show(k, 8)) for k, g in bad), key="row/%s/skip" % crate)
            for m in (True, False):
                if u in (m, None):
                    seen[m]["new"] = True
        else:
            known = isrow_inside(v) or "analyze" in calls(v)
            unclear = unclear or not known
            ctx.hold(r, "rows (%s)" % crate, False if known and clear(v) and not lossy else None, w, "writes " + show(v, 6), key="row/%s/altered" % crate)
    if not H.rows:
        ctx.hold(r, crate, None)
        return
    for m in (True, False):
        # no row of that sort in any case
        if not seen[m]["new"] and not unclear:
            ctx.hold(r, "inputs are analyzed (%s)" % crate, False if not any(v.op != "call" and not isrow(v) for v, *_ in H.rows) else None, where(f), "no input is analyzed", key="row/%s/none" % crate)
    if not seen[True]["old"] and not unclear:
        ctx.hold(r, "existing rows (%s)" % crate, False if not any(isrow_inside(v) for v, *_ in H.rows) else None, where(f), "existing rows are not written", key="row/%s/lost" % crate)


def written_rows(H, f):
    """what is handed to the writer, with the conditions of the list it comes from"""
    vals = {v for v, *_ in H.rows}
    for v, fs, opn, w, lossy in H.rows:
        yield v, fs, [], w, lossy
    done = set()
    for op, c, fs in H.lists:
        if c in done or c.a[0] not in ("vec", "iter"):
            continue
        done.add(c)
        for p in c.a[1]:
            if p.a[0] in vals and p.a[1]:
                yield p.a[0], {k: w for k, w in fs.items() if not any(x.op == "elem" for x in subterms(k))}, sorted(p.a[1], key=lambda g: g[0].n), where(f), False


def isrow_inside(v):
    return any(isrow(x) for x in subterms(v))


def understood(bad):
    """conditions over labels, indexes and rows only"""
    for k, _ in bad:
        for x in subterms(k):
            if x.op == "call" and not any(n in x.a[0] for n in ("from_args", "deserialize", "from_path", "extract_inputs", "generate_inputs", "contains", "starts_with", "ends_with")):
                return False
    return True


def keyof(x, keys):
    """the key of input or row x"""
    return [F(x, k) for k in keys]


def samekey(k, x, keys):
    """k: contains(rows by key, key of x)"""
    m, q = k.a[0], k.a[1]
    if m.op != "coll":
        return False
    okq = q is x or [q] == keyof(x, keys) or (q.op == "agg" and {v for _, v in q.a[2]} >= set(keyof(x, keys)))
    if not okq or not m.a[1] or m.a[2]:
        return False
    for p in m.a[1]:
        e, g, b = p.a
        kk = fields(e).get("0") if e.op == "agg" and m.a[0] == "map" else e
        if kk is None:
            return False
        row = [y for y in subterms(kk) if isrow(y)]
        if not row:
            return False
        got = {v for _, v in kk.a[2]} if kk.op == "agg" else {kk}
        # (a record of equally named fields of the row is written as the row)
        if got != set(keyof(row[0], keys)) and kk is not row[0]:
            return False
        if any(not (y.op == "is" and y.a[0] is (row[0].a[0] if row[0].op == "pay" else row[0])) for y, _ in g):
            return False
    return True


def order(ctx, crate, H, keys, f):
    """the last list with all rows before they are written is in key order"""
    r = "rows are written in the order of their labels"
    full = []
    for op, v, fs in H.lists:
        es = [p.a[0] for p in v.a[1]]
        new = any(term(e, "extract_inputs") or term(e, "generate_inputs") for e in es)
        old = any(isrow_inside(e) for e in es)
        if new and old and v.a[0] in ("vec", "iter"):
            full.append((op, v, fs))
    if not full:
        ctx.hold(r, crate, None)
        return
    tagged = [(op, v) for op, v, _ in full if any(isinstance(t, tuple) and t[0] == "by" for t in v.a[3]) or "sorted" in v.a[3]]
    if not tagged:
        ctx.hold(r, crate, False if not H.sorts else None, where(f), "the list of all rows is not sorted", key="order/%s/none" % crate)
    for op, v in tagged:
        bys = [t[1] for t in v.a[3] if isinstance(t, tuple) and t[0] == "by"]
        ok = True
        for b in bys:
            leaves = b.a[0] if b.op == "phi" else (b,)
            for l in leaves:
                l = l.a[2][0][1] if l.op == "agg" and l.a[2] else l
                if not (l.op == "fld" and l.a[1] == keys[0]):
                    ok = False if clear(l) and not any(y.op == "fld" and y.a[1] == keys[0] for y in subterms(l)) else None
        if "rev" in v.a[3]:
            ok = False
        ctx.hold(r, "%s (%s)" % (op, crate), ok, where(f), "sorted by " + "; ".join(show(b, 5) for b in bys), key="order/%s/by" % crate)
    # after sorting, nothing may change the order
    last = full[-1][1]
    for op, v, _ in full:
        bad = {"rev", "hashorder", "perm"} & {t for t in v.a[3] if isinstance(t, str)}
        if bad:
            ctx.hold(r, "%s (%s)" % (op, crate), False if "rev" in bad or "hashorder" in bad else None, where(f), "reordered: %s" % ", ".join(sorted(bad)), key="order/%s/re" % crate)


def errors(ctx, crate, H, outs, f, own=()):
    r = "an error of reading or writing is returned"
    done = {}
    sites = {}
    for name, vs, facts, w in H.io + [(n, v, fs, w) for n, v, fs, w, _, _, _ in H.makers]:
        op = name.split("::")[-1]
        if op in ("from_writer", "from_reader", "deserialize", "has_headers", "headers", "into_deserialize", "records"):
            continue
        sites.setdefault((name, w), []).append((vs, facts))
    # every outcome that knows of an error returns it
    for st, v in outs:
        for k, g in st.facts.items():
            e = errfact(k, g, own)
            if e is None:
                continue
            op = e.a[0].split("::")[-1] if e.op == "call" else "deserialize"
            okv = v.op == "agg" and v.a[1] == "Err" or v is e or mentions(v, e)
            ctx.hold(r, "%s (%s)" % (op, crate), True if okv else (False if v.op == "agg" and v.a[1] == "Ok" else None), where(f), "a failed %s is not returned" % op, key="error/%s/%s" % (crate, op))
    # every result is looked at
    for (name, w), xs in sorted(sites.items()):
        op = name.split("::")[-1]
        n = 0
        for st, v in outs:
            for t in [v] + list(st.facts):
                for x in subterms(t):
                    if x.op in ("is", "pay") and x.a[1] in ("Ok", "Err") and any(y.op == "call" and y.a[0] == name for y in [x.a[0]]):
                        n += 1
                    elif x is v and x.op == "call" and x.a[0] == name:
                        n += 1
        ctx.hold(r, "result of %s in %s" % (op, w.split()[-1]), n > 0, w, "the result of %s is not looked at" % name, key="ignored/%s/%s" % (crate, op))
    # ... on every path that ends well
    for name, vs, facts, w in H.straight:
        op = name.split("::")[-1]
        if op in ("from_writer", "from_reader", "deserialize", "has_headers", "headers", "into_deserialize", "records"):
            continue
        c = mk("call", name, tuple(vs))
        for st, v in outs:
            if v.op == "agg" and v.a[1] == "Ok" and not st.lossy and all(st.facts.get(k) == g for k, g in facts.items()) and not any(mentions(k, c) for k in st.facts):
                ctx.hold(r, "result of %s in %s" % (op, w.split()[-1]), False, w, "%s succeeds whatever %s returns" % (f.short, name), key="unchecked/%s/%s" % (crate, op))
    # rows that are read
    reads = [x for x in H.io if x[0].endswith("deserialize") and x[0].startswith("Reader")]
    if reads:
        seen = False
        for st, v in outs:
            for t in [v] + list(st.facts):
                for x in subterms(t):
                    if x.op == "is" and x.a[0].op == "elem" and term(x.a[0], "deserialize"):
                        seen = True
        dropped = any(k.op == "is" and k.a[0].op == "elem" and term(k, "deserialize") and g is True for _, c, _ in H.lists for q in c.a[1] for k, g in q.a[1]) or \
            any(k.op == "is" and k.a[0].op == "elem" and term(k, "deserialize") for row in H.rows for k in row[1])
        ctx.hold(r, "rows that are read (%s)" % crate, True if seen and any(errrow(st, v) for st, v in outs) else (False if dropped and not any(errrow(st, v) for st, v in outs) else None), where(f), "rows that cannot be read are dropped", key="error/%s/rows" % crate)
    # what was buffered is written out under control
    if H.rows and not own:
        ctx.hold("what was buffered is written out before the end", crate, True if H.flush else False, where(f), "no flush: errors are ignored when the writer goes away", key="flush/" + crate)


def errrow(st, v):
    return v.op == "agg" and v.a[1] == "Err" and bool(term(v, "deserialize")) and not any(term(v, n) for n in ("::serialize", "::flush"))


def errfact(k, g, own=()):
    """the call that failed according to the fact"""
    if k.op == "is" and k.a[1] == "Ok" and g is False and iocall(k.a[0], own):
        return k.a[0]
    if k.op == "any" and g is True:
        for p in k.a[0]:
            for c, w in p.a[1]:
                if c.op == "is" and c.a[1] == "Ok" and w is False and iocall(c.a[0], own):
                    return c.a[0]
    return None


def iocall(x, own=()):
    return x.op == "call" and (x.a[0] in own or x.a[0].startswith(("Writer::", "Reader::")) or x.a[0].startswith(("File::", "fs::"))) or x.op == "elem" and term(x, "deserialize")


def check(ctx):
    for crate, keys in TOOLS.items():
        tool(ctx, crate, keys)
