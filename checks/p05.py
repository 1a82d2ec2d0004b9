"""Same input, same output: no value that depends on the iteration order of hash maps, the clock, random
numbers, the environment or the number of worker threads reaches a result."""
import re
from flow import *
from finders import reach

BINS = ("bin_bulk_fbas_analyzer", "bin_fbas_analyzer")
AREA = ("src/analysis", "src/core_types", "src/io")
SRC = [("random numbers", re.compile(r"^(rand|rand_core|rand_chacha|fastrand|getrandom)::|RandomState::new|hash::random|BuildHasher::build_hasher")),
       ("the environment", re.compile(r"^std::env::(var|vars|temp_dir|current_dir|current_exe)|^std::process::id|thread::.*current|gethostname|std::env::\w*var"))]
CLOCK = re.compile(r"std::time::.*::(now|elapsed)$|SystemTime|chrono::")
OUTPUT = ("serialize", "serialize_field", "serialize_element", "serialize_some", "serialize_newtype_struct", "to_string", "to_string_pretty", "to_vec", "to_writer",
          "write_record", "write_all", "write", "to_value")


def roots(ctx):
    out = []
    for f in sorted(ctx.prog.fns.values(), key=lambda f: f.id):
        if f.kind in ("Closure", "Promoted"):
            continue
        if f.crate == "fbas_analyzer" and f.file.startswith(AREA) or f.crate in BINS:
            out.append(f)
    return out


def debug(f):
    return f.derived and f.name == "fmt" or f.name == "fmt" and "Debug" in str(f.of_trait or f.trait)


class Sinks:
    def __init__(self, ctx):
        self.ctx = ctx
        self.root = None

    def __call__(self, kind, labels, span, f, x):
        ctx = self.ctx
        where_ = "%s:%s %s" % (span[0], span[1], f.short if f.kind != "Closure" else f.id.split("::", 1)[1])
        bad = labels & frozenset("HET")
        if kind == "call":
            ident, name, labs, tys, info = x
            if name in ("_print",) and bad:
                ctx.report("print/%s" % f.id, where_, "what is printed depends on the iteration order of a hash map")
            if name in OUTPUT and f.kind != "Closure" or name in ("serialize", "write_record"):
                if bad and not debug(f):
                    ctx.report("write/%s" % f.id, where_, "what is written (%s) depends on the iteration order of a hash map" % name)
            if name in ("serialize_field", "serialize_element", "serialize_some", "new_display", "serialize_newtype_struct", "serialize_map", "to_string", "to_string_pretty"):
                for t in tys:
                    if contains_hash(t) and self.direct(t, name):
                        ctx.report("write/%s" % f.id, where_, "a hash map is written out in its iteration order (%s)" % name)
            if name in CUT and f.crate in BINS and any("J" in l for l in labs[1:]):
                ctx.report("jobs/%s" % f.id, where_, "the number of worker threads decides what is processed (%s)" % name)
        elif kind == "field":
            adt, n = x
            if "K" in labels and adt.split("::")[-1] == "OutputDataPoint" and f.crate in BINS and "duration" not in n:
                ctx.report("clock/%s" % n, where_, "column %s depends on the clock" % n)
            if adt.split("::")[-1] == "OutputDataPoint" and "J" in labels:
                ctx.report("jobs/%s" % n, where_, "column %s depends on the number of worker threads" % n)
        elif kind == "branch":
            if "K" in labels and f.crate == "fbas_analyzer":
                ctx.report("clock/branch/%s" % f.id, where_, "what is done depends on the clock")
        elif kind == "address":
            ctx.report("address/%s" % f.id, where_, "a memory address is used as a number")

    def direct(self, t, name):
        return True


class Threads(Flow):
    def tagfield(self, n):
        return frozenset("J") if re.fullmatch(r"jobs|threads|num_threads|nb_threads|workers|n_jobs", n) else NONE


def contains_hash(t):
    t = strip_refs(t)
    if t.k == "adt":
        return t.a[1].split("::")[-1] in ("HashMap", "HashSet") or any(contains_hash(x) for x in t.a[2])
    if t.k == "tuple":
        return any(contains_hash(x) for x in t.a[1])
    if t.k in ("slice", "array"):
        return contains_hash(t.a[1])
    return False


def check(ctx):
    prog = ctx.prog
    fs = roots(ctx)
    ctx.floor("functions", len(fs), 150)
    # effects reachable in the call graph
    seen = set()
    for f in fs:
        seen |= {f.id} | reach(prog, f)
    rule = "no random numbers and nothing about the process enters the analysis"
    n = 0
    for i in sorted(seen):
        g = prog.fns.get(i)
        if g is None:
            continue
        for b in g.blocks:
            if not b or b[1][0] != "call" or b[1][1][0] != "fn":
                continue
            n += 1
            info = b[1][1][1]
            p = info["res"] or info["p"]
            for what, rx in SRC:
                if (rx.search(p) or rx.search(info["u"])) and p not in prog.fns:
                    ctx.report("effect/%s/%s" % (what, g.id), "%s:%s %s" % (b[1][5][0], b[1][5][1], g.short), "%s: %s" % (rule, p))
            if g.crate == "fbas_analyzer" and CLOCK.search(p):
                ctx.notes.append("clock read in %s" % g.short)
    ctx.callsites += n
    ctx.hold(rule, "%d functions, %d calls" % (len(seen), n), not any(k.startswith("effect/") for k in ctx.viol))
    # order, clock and threads
    fl = Threads(prog, Sinks(ctx))
    rule = "no result depends on the iteration order of a hash map, the clock or the number of threads"
    hashiters = 0
    for f in fs:
        try:
            ret, outs = fl.summary(f, tuple(NONE for _ in range(f.argc)))
        except RecursionError:
            ctx.hold(rule, f.short, None)
            continue
        labs = frozenset().union(*ret.values(), *outs.values()) if ret or outs else NONE
        public = f.crate == "fbas_analyzer" and (f.reach or f.trait or f.of_trait)
        if debug(f):
            ctx.hold(rule, f.short, True)
            continue
        r = True
        if public and labs & frozenset("HET"):
            r = False
        elif public and "U" in labs:
            r = None
        if public and labs & frozenset("KJ"):
            r = False
        ctx.hold(rule, f.short, r, where(f), "its result depends on " + {"K": "the clock", "J": "the number of threads"}.get(next(iter(sorted(labs & frozenset("KJ"))), ""), "the order in which a hash map is iterated"), key="result/" + f.id)
    ctx.functions |= fl.functions
    ctx.callsites += fl.sites
    # the rows of the bulk tool come in the order of the tasks, whatever the number of threads
    rule = "the parallel map keeps the order of the tasks"
    for g in prog.fns.values():
        if g.crate != BINS[0]:
            continue
        for b in g.blocks:
            if not b or b[1][0] != "call" or b[1][1][0] != "fn":
                continue
            info = b[1][1][1]
            p = info["res"] or info["p"]
            if p.startswith("par_map::") and info["n"] in ("par_map", "par_flat_map"):
                ctx.hold(rule, g.short, True)
            elif re.search(r"unordered|par_bridge|for_each_with|spawn", info["n"]):
                ctx.hold(rule, g.short, None)
