"""Analyses leave their input alone and have no side effects: effect analysis over the call graph."""
import re
from base import *
from finders import callees, reach

AREA = ("src/analysis", "src/core_types", "src/io", "src/simulation")
EFFECTS = [
    ("stdin", re.compile(r"std::io::stdio::stdin|io::stdio::\{impl#\d+\}::read")),
    ("print", re.compile(r"std::io::stdio::(_print|_eprint|stdout|stderr|set_output)|io::stdio::print")),
    ("write", re.compile(r"^std::fs::(write|create_dir|create_dir_all|remove_\w+|rename|copy|hard_link|set_permissions)|^std::os::.*symlink|^std::fs::\{impl#\d+\}::(create|create_new|append|truncate|set_len)$")),
    ("read", re.compile(r"^std::fs::(read|read_to_string|read_dir|read_link|metadata|canonicalize|File|OpenOptions)|^std::fs::\{impl#\d+\}::(open|open_buffered)$|^std::path::.*::(exists|is_file|is_dir|read_dir|metadata)$")),
    ("process", re.compile(r"^std::process::|^std::env::(set_var|remove_var|set_current_dir)|^std::net::|^std::os::|^libc::|^nix::")),
]
# what a function may do, by the name it is documented under
ALLOW = [(re.compile(r"_stdin$|^stdin"), {"stdin"}),
         (re.compile(r"^(to|write|save|append).*_file(_|$)"), {"write", "read"}),
         (re.compile(r"_file(_|$)"), {"read"})]
CELLS = ("Cell", "RefCell", "Mutex", "RwLock", "UnsafeCell", "Atomic", "AtomicBool", "AtomicUsize", "AtomicU64", "AtomicU32", "AtomicI32", "AtomicI64", "AtomicIsize", "AtomicPtr", "LocalKey")
RAWCALLS = re.compile(r"core::ptr::(write|replace|swap|copy)|transmute|::as_mut_ptr$|::cast_mut$|::get_unchecked_mut$|::from_raw_parts_mut$|::write_volatile$")


def own(f):
    return f.crate == "fbas_analyzer" and f.file.startswith(AREA)


def allowed(f):
    for rx, k in ALLOW:
        if rx.search(f.name):
            return k
    return set()


def cells_in(t, prog, seen=()):
    """an interior mutable type contained in t"""
    t = strip_refs(t)
    if t.k == "adt":
        n = t.a[1].split("::")[-1]
        if n in CELLS:
            return n
        for x in t.a[2]:
            r = cells_in(x, prog, seen)
            if r:
                return r
        if t.a[1] in prog.adts and t.a[1] not in seen:
            for _, fs in prog.adts[t.a[1]]["v"]:
                for _, ft, _ in fs:
                    r = cells_in(ft, prog, seen + (t.a[1],))
                    if r:
                        return r
    if t.k == "tuple":
        for x in t.a[1]:
            r = cells_in(x, prog, seen)
            if r:
                return r
    if t.k in ("slice", "array"):
        return cells_in(t.a[1], prog, seen)
    return None


def calls_of(g):
    for b in g.blocks:
        if b and b[1][0] == "call" and b[1][1][0] == "fn":
            yield b[1][1][1], b[1][5], b[1]
    # functions handed over as values
    for b in g.blocks:
        if not b:
            continue
        ops = list(b[1][2]) if b[1][0] == "call" else []
        for s in b[0]:
            if s[0] == "=":
                ops += [x for x in s[2] if isinstance(x, list) and x and x[0] == "fn"]
                if s[2][0] == "agg":
                    ops += s[2][2]
        for o in ops:
            if isinstance(o, list) and o and o[0] == "fn" and isinstance(o[1], dict):
                yield o[1], b[1][-1] if isinstance(b[1][-1], list) else g.span, None


def check(ctx):
    prog = ctx.prog
    fs = [f for f in sorted(prog.fns.values(), key=lambda f: f.id) if own(f)]
    ctx.floor("library functions", len([f for f in fs if f.kind not in ("Promoted", "Closure")]), 150)
    direct = {}
    for f in fs:
        for info, span, t in calls_of(f):
            ctx.callsites += 1
            p = info["res"] or info["p"]
            if p in prog.fns:
                continue
            for kind, rx in EFFECTS:
                if rx.search(p):
                    direct.setdefault(f.id, []).append((kind, p, span))
                    break
    # functions with an effect on the outside only where their name says so
    rule = "only the functions documented to read or write a file or standard input do so"
    for f in fs:
        if f.kind in ("Promoted", "Closure"):
            continue
        ctx.functions.add(f.id)
        if not (f.reach or f.trait or f.of_trait):
            # private helpers are judged where they are used
            ctx.obl += 0
            continue
        bad = None
        # effects reached without passing through another public function
        todo, seen = [f.id], {f.id}
        while todo and not bad:
            g = todo.pop()
            for kind, p, span in direct.get(g, []):
                if kind not in allowed(f):
                    bad = (kind, p, span, g)
                    break
            if g in prog.fns:
                for y in callees2(prog, prog.fns[g]):
                    h = prog.fns.get(y)
                    if y not in seen and h is not None:
                        seen.add(y)
                        todo.append(y)
        if bad:
            kind, p, span, g = bad
            ctx.hold(rule, f.short, False, "%s:%s %s" % (span[0], span[1], prog.fns[g].short), "%s reaches %s" % (f.short, p), key="effect/%s/%s/%s" % (kind, g, p))
        else:
            ctx.hold(rule, f.short, True)
    # shared references stay shared
    rule = "what is passed by shared reference cannot be changed: no raw pointers, no mutable statics"
    for f in fs:
        box = set()
        for b in f.blocks:
            if not b:
                continue
            for s in b[0]:
                if s[0] == "=" and s[2][0] == "cast" and "BoxDeref" in str(s[2][1]):
                    box.add(s[1][0])
        bad = None
        for b in f.blocks:
            if not b:
                continue
            for s in b[0]:
                if s[0] != "=":
                    continue
                for pl, w in ((s[1], True), (s[2][2], s[2][1]) if s[2][0] == "ref" else (None, False)):
                    if pl and w and pl[1] and pl[1][0] == "*" and f.locals[pl[0]].k == "ptr" and pl[0] not in box:
                        bad = (s[3], "a place behind a raw pointer is written or borrowed mutably")
                ops = [x for x in s[2] if isinstance(x, list) and x and x[0] == "const"]
                for o in ops:
                    r = static(f, o)
                    if r:
                        bad = (s[3], r)
            if b[1][0] == "call":
                for o in b[1][2]:
                    if o[0] == "const":
                        r = static(f, o)
                        if r:
                            bad = (b[1][5], r)
                if b[1][1][0] == "fn":
                    info = b[1][1][1]
                    p = info["res"] or info["p"]
                    if RAWCALLS.search(p):
                        bad = (b[1][5], "calls %s" % p)
                    if re.search(r"std::thread::local::.*::(with|set|take|replace|with_borrow_mut|try_with)$", p):
                        bad = (b[1][5], "uses thread-local state")
        ctx.hold(rule, f.short if f.kind != "Closure" else f.id, not bad, "%s:%s %s" % (bad[0][0], bad[0][1], f.short) if bad else "", bad[1] if bad else "", key="shared/" + f.id)
    # interior mutability
    rule = "the types of input and results have no interior mutability"
    holders = {}
    for a in prog.adts.values():
        if a["crate"] != "fbas_analyzer":
            continue
        for v, flds in a["v"]:
            for n, t, _ in flds:
                c = cells_in(t, prog)
                if c:
                    holders.setdefault(a["n"], []).append((n, c))
    for n in ("Fbas", "Node", "QuorumSet", "Grouping", "Groupings", "NodeIdSetResult", "NodeIdSetVecResult", "Graph", "ShrinkManager"):
        a = prog.adt(n)
        if a is None:
            continue
        ctx.hold(rule, n, None if n in holders else True)
    # an analysis owns a copy of what it analyses
    rule = "changes through shared references reach the analysis object's own data only"
    a = prog.adt("Analysis")
    if a is not None:
        for v, flds in a["v"]:
            for n, t, _ in flds:
                ctx.hold(rule, "Analysis." + n, True if t.k != "ref" else None)


def static(f, o):
    """a reference to a mutable static"""
    if "alloc" not in str(o[1]):
        return None
    s = str(o[1])
    if re.search(r"\*mut ", s):
        return "uses a mutable static"
    if re.search(r"(OnceLock|OnceCell|Once)\b", s):
        # filled by what the first caller passed in
        for b in f.blocks:
            if not b:
                continue
            if b[1][0] == "call" and b[1][1][0] == "fn" and b[1][1][1]["n"] in ("set", "call_once"):
                return "uses state shared between calls (a static set once)"
            for st in b[0]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure" and st[2][2] and any(
                        c[1][0] == "call" and c[1][1][0] == "fn" and c[1][1][1]["n"] in ("get_or_init", "get_or_try_init", "call_once") and
                        any(o[0] in ("cp", "mv") and o[1][0] == st[1][0] for o in c[1][2]) for c in f.blocks if c):
                    return "uses state shared between calls (a static filled from what the first caller passed)"
    m = re.search(r"(Mutex|RwLock|RefCell|UnsafeCell|atomic::Atomic\w*|cell::Cell)\b", s)
    if m:
        return "uses state shared between calls (a static %s)" % m.group(1)
    return None


def callees2(prog, f):
    """callees including functions handed over as values and closures"""
    c = getattr(f, "_callees2", None)
    if c is None:
        c = set(callees(prog, f))
        for info, _, _ in calls_of(f):
            r = info["res"] or info["p"]
            if r in prog.fns:
                c.add(r)
        f._callees2 = c
    return c
