"""Simulation tools: what is built, run and printed for every subcommand."""
from p13 import *
from p09 import lin_diff

SIM, GEN = "bin_qsc_simulator", "bin_graph_generator"
VARIANTS = ("SuperSafe", "Ideal", "Random", "FameWeightedRandom", "AllNeighbors", "HigherTierNeighbors", "SymmetryEnforcingHigherTierNeighbors", "GlobalRank")
GRAPHLESS = VARIANTS[:3]


class Lines(ai.Hook):
    """lines printed and files written, as marks of the path"""

    def __init__(self, crate):
        self.crate = crate

    def opaque(self, I, fn):
        return fn.crate != self.crate

    def call(self, I, st, fr, span, name, fn, args):
        if name.endswith("io::_print"):
            st.marks = frozenset(st.marks) | {(len(st.marks), "print", I.read(st, args[0]))}
        elif name.endswith("Write::write_all") or name.endswith("Write::write_fmt"):
            st.marks = frozenset(st.marks) | {(len(st.marks), "print", I.read(st, args[1]))}
        elif name == "Graph::to_as_rel_file":
            st.marks = frozenset(st.marks) | {(len(st.marks), "file", mk("call", name, tuple(I.read(st, a) for a in args)))}
        return None


def plain(t, known=()):
    ok = all(c.split("::")[0] in ("Graph", "Fbas", "Simulator", "StructOpt", "IdealQsc", "SuperSafeQsc", "RandomQsc", "AllNeighborsQsc", "HigherTierNeighborsQsc",
                                 "GlobalRankQsc", "DebugMonitor", "Read", "io", "Path", "read_to_string") for c in calls(t))
    return ok and not any(x.op in ("phi", "dyncall", "opaque", "undef", "lv", "unk") for x in subterms(t))


def text_of(v):
    """the one value printed on a line"""
    xs = [x for x in (v.a[0] if v.op == "fmt" else (v,)) if not (x.op == "str" and not x.a[0].strip())]
    return xs[0] if len(xs) == 1 else None


def generator(ctx):
    f = ctx.fn("main", GEN)
    if not ctx.anchor("main of the graph generator", f):
        return
    alg = F(A, "algorithm_config")
    r1 = "the graph written is of the kind asked for, with the parameters given, shuffled unless told otherwise"
    r2 = "the graph goes to the given file or, without one, is printed"
    r3 = "an error of writing the file is returned"
    seen = set()
    for kind in ("BarabasiAlbert", "WattsStrogatz"):
        for dont in (True, False):
            for file in (True, False):
                st = ai.State()
                for k in ("BarabasiAlbert", "WattsStrogatz"):
                    st.facts[isvar(alg, k)] = k == kind
                st.facts[F(A, "dont_shuffle")] = dont
                st.facts[isS(F(A, "path"))] = file
                I, outs, a = ctx.run(f, hooks=[Lines(GEN)], st=st)
                p = lambda n: pay(alg, kind, n)
                g = C("Graph::new_random_scale_free", p("n"), p("m0"), p("m")) if kind == "BarabasiAlbert" else C("Graph::new_random_small_world", p("n"), p("k"), p("beta"))
                g = g if dont else C("Graph::shuffled", g)
                inst = "%s, %s, %s" % (kind, "not shuffled" if dont else "shuffled", "file" if file else "printed")
                for s, v in outs:
                    good = v.op == "agg" and v.a[1] == "Ok"
                    m = sorted(s.marks, key=lambda m: m[0])
                    files = [t for _, k, t in m if k == "file"]
                    prints = [t for _, k, t in m if k == "print"]
                    if not good:
                        continue
                    seen.add((kind, dont, file))
                    if file:
                        ok = True if len(files) == 1 and not prints else (None if s.lossy or not files and any(not plain(t) for t in prints) else False)
                        ctx.hold(r2, inst, ok, where(f), "%d files written, %d lines printed" % (len(files), len(prints)), key="gen/where")
                        for t in files:
                            same(ctx, r1, inst, t.a[1][0], g, f, "gen/graph")
                            same(ctx, r2, inst, t.a[1][1], S(F(A, "path")), f, "gen/path")
                            k = isvar(t, "Ok")
                            e = implied(s.facts, k)
                            ctx.hold(r3, inst, True if e else (False if e is False or not s.lossy and not any(mentions(x, t) for x in s.facts) else None), where(f), "succeeds whatever writing the file returns", key="gen/error")
                    else:
                        ctx.hold(r2, inst, True if not files and len(prints) == 1 else (None if s.lossy or not prints else False), where(f),
                                 "%d files written, %d lines printed" % (len(files), len(prints)), key="gen/where")
                        for t in prints:
                            x = text_of(t)
                            x = x.a[0] if x is not None and x.op == "disp" else x
                            if x is not None and x.op == "pay" and x.a[0].op == "call" and x.a[0].a[0] == "Graph::to_as_rel_string":
                                same(ctx, r1, inst, x.a[0].a[1][0], g, f, "gen/graph")
                            else:
                                ctx.hold(r1, inst, None)
    ctx.floor("configurations of the graph generator", len(seen), 8)


def same(ctx, rule, inst, got, want, f, key):
    ctx.hold(rule, inst, True if got is want else (False if plain(got) else None), where(f), show(got, 8), key=key)


def norm(t, n0, g0):
    """leave out what does nothing when nodes or growth are zero"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        r = x
        if x.op not in ("sym", "str", "int", "bool"):
            r = mk(x.op, *[go(y) for y in x.a])
        if r is F(A, "initial_n") and n0 or r is F(A, "grow_by_n") and g0:
            r = I_(0)
        if r.op == "call" and r.a[0] == "Simulator::new":
            r = mk("call", r.a[0], r.a[1][:2])
        if r.op == "out" and r.a[0].op == "call" and r.a[0].a[0] in ("Simulator::simulate_growth", "Simulator::simulate_global_reevaluation") and r.a[0].a[1][1] is I_(0):
            r = r.a[0].a[1][0]
        memo[x] = r
        return r
    return go(t)


def simulator(ctx):
    f = ctx.fn("main", SIM)
    if not ctx.anchor("main of the simulator", f):
        return
    q = F(A, "qsc_config")
    rules = {"policy": "the policy run is the one named by the subcommand, with the parameters given", "size": "the simulation starts with the number of nodes asked for, or that of the graph",
             "graph": "the graph is read from standard input for - and from the given file otherwise", "run": "all nodes are configured, the growth asked for is simulated and the resulting FBAS is printed"}
    seen = set()
    cap, ai.CAP = ai.CAP, 256
    for var in VARIANTS:
        stdin, files, unknown = 0, 0, 0
        for n0 in (True, False):
            for g0 in (True, False):
                st = ai.State()
                for k in VARIANTS:
                    st.facts[isvar(q, k)] = k == var
                st.facts[eq0(F(A, "initial_n"))] = n0
                st.facts[eq0(F(A, "grow_by_n"))] = g0
                I, outs, a = ctx.run(f, hooks=[Lines(SIM)], st=st)
                for s, v in outs:
                    if not (v.op == "agg" and v.a[1] == "Ok"):
                        continue
                    inst = "%s, %s initial nodes, %s growth" % (var, "no" if n0 else "some", "no" if g0 else "some")
                    m = [t for _, k, t in sorted(s.marks, key=lambda m: m[0]) if k == "print"]
                    xs = [text_of(t) for t in m]
                    if len(m) != 1 or xs[0] is None:
                        ctx.hold(rules["run"], inst, False if not m and not s.lossy else None, where(f), "%d lines are printed" % len(m), key="sim/print/" + var)
                        continue
                    seen.add((var, n0, g0))
                    x = norm(xs[0], n0, g0)
                    p = lambda n: pay(q, var, n)
                    g = None
                    if var not in GRAPHLESS:
                        gs = {y for y in subterms(x) if y.op == "call" and y.a[0] in ("Graph::from_as_rel_string", "Graph::from_as_rel_file")}
                        g = gs.pop() if len(gs) == 1 else None
                        if g is None:
                            ctx.hold(rules["graph"], inst, None if any(c.startswith("Graph::") for c in calls(x)) or not plain(x) else False, where(f), show(x, 10), key="sim/graph/" + var)
                            continue
                        path = p("graph_data_path")
                        dash = [w for k, w in s.facts.items() if k.op == "eq" and mentions(k, path) and mk("str", "-") in k.a]
                        if g.a[0].endswith("file"):
                            files += 1
                            same(ctx, rules["graph"], inst, g.a[1][0], path, f, "sim/path/" + var)
                            if dash:
                                ctx.hold(rules["graph"], inst, dash[0] is False, where(f), "the file is read for -", key="sim/dash/" + var)
                        else:
                            stdin += 1
                            if dash:
                                ctx.hold(rules["graph"], inst, dash[0] is True, where(f), "standard input is read for a file", key="sim/dash/" + var)
                            src = g.a[1][0]
                            ok = True if any("stdin" in c for c in calls(src)) else (False if plain(src) else None)
                            ctx.hold(rules["graph"], inst, ok, where(f), show(src, 6), key="sim/stdin/" + var)
                        unknown += not dash
                    qsc = {"SuperSafe": lambda: C("SuperSafeQsc::new"), "Ideal": lambda: C("IdealQsc::new"), "Random": lambda: C("RandomQsc::new_simple", p("desired_quorum_set_size")),
                           "FameWeightedRandom": lambda: C("RandomQsc::new", p("desired_quorum_set_size"), p("desired_threshold"), some(C("Graph::get_in_degrees", g))),
                           "AllNeighbors": lambda: C("AllNeighborsQsc::new", g, p("relative_threshold")),
                           "HigherTierNeighbors": lambda: C("HigherTierNeighborsQsc::new", g, p("relative_threshold"), FALSE),
                           "SymmetryEnforcingHigherTierNeighbors": lambda: C("HigherTierNeighborsQsc::new", g, p("relative_threshold"), TRUE),
                           "GlobalRank": lambda: C("GlobalRankQsc::new", g, p("relative_threshold"))}[var]()
                    alts = {qsc}
                    if var == "Random":
                        alts.add(C("RandomQsc::new", p("desired_quorum_set_size"), ai.NONE, ai.NONE))
                    n = F(A, "initial_n") if not n0 else (I_(0) if not g0 or g is None else C("Graph::number_of_nodes", g))
                    news = {y for y in subterms(x) if y.op == "call" and y.a[0] == "Simulator::new"}
                    if len(news) != 1:
                        ctx.hold(rules["policy"], inst, None)
                        continue
                    new = news.pop()
                    gq, gf = new.a[1][1], new.a[1][0]
                    ctx.hold(rules["policy"], inst, True if gq in alts else (False if plain(gq) else None), where(f), show(gq, 8), key="sim/policy/" + var)
                    wf = C("Fbas::new_generic_unconfigured", n)
                    ok = True if gf is wf else (False if plain(gf) and not s.lossy else None)
                    ctx.hold(rules["size"], inst, ok, where(f), show(gf, 8), key="sim/size/" + var)
                    want = C("Fbas::to_json_string_pretty", C("Simulator::finalize", mk("out", C("Simulator::simulate_growth", mk("out", C("Simulator::simulate_global_reevaluation", new, gf.a[1][0] if gf.op == "call" and gf.a[1] else n), 0), F(A, "grow_by_n")), 0)))
                    want = norm(want, n0, g0)
                    lax = mk("call", "Fbas::to_json_string", want.a[1])
                    if x.op == "disp":
                        x = x.a[0]
                    ctx.hold(rules["run"], inst, True if x in (want, lax) else (False if plain(x) and not s.lossy else None), where(f), show(x, 10), key="sim/run/" + var)
        if var not in GRAPHLESS and unknown == 0 and files + stdin:
            ctx.hold(rules["graph"], var, files > 0 and stdin > 0, where(f), "never read from %s" % ("a file" if not files else "standard input"), key="sim/source/" + var)
        elif var not in GRAPHLESS and unknown and (not files or not stdin):
            ctx.hold(rules["graph"], var, None)
    ai.CAP = cap
    ctx.floor("configurations of the simulator", len(seen), len(VARIANTS) * 4)


class Adds(ai.Hook):
    def __init__(self):
        self.seen = []

    def opaque(self, I, fn):
        return fn.short in ("Fbas::add_generic_node", "Fbas::add_node")

    def call(self, I, st, fr, span, name, fn, args):
        if name in ("Fbas::add_generic_node", "Fbas::add_node"):
            self.seen.append((tuple(st.open), dict(st.facts)))
        return None


def constructors(ctx):
    """parameters arrive in the field of their name"""
    r = "a policy keeps the parameters it is given"
    for n in ("AllNeighborsQsc::new", "HigherTierNeighborsQsc::new", "GlobalRankQsc::new", "RandomQsc::new"):
        f = ctx.fn(n)
        if not ctx.anchor(n, f):
            continue
        I, outs, a = ctx.run(f)
        for st, v in outs:
            if v.op != "agg":
                ctx.hold(r, n, None)
                continue
            fs = fields(v)
            for i in range(f.argc):
                name = f.lnames[i + 1]
                if name not in fs:
                    continue
                x = fs[name]
                if tystr(f.argtys()[i]).startswith("Option<") and x is not a[i] and x.op in ("pay", "coll"):
                    # the default of an option
                    ok = True if x is S(a[i]) or x.op == "coll" and not x.a[1] and implied(st.facts, isS(a[i])) is False else None
                    ctx.hold(r, "%s, %s" % (n, name), ok, where(f), show(x, 6), key="new/%s/%s" % (n, name))
                    continue
                ok = True if x is a[i] else (False if clear(x) and not calls(x) and not st.lossy and not any(mentions(x, y) and y.op != "sym" for y in a) and x.op in ("sym", "bool", "int", "agg") else None)
                ctx.hold(r, "%s, %s" % (n, name), ok, where(f), show(x, 6), key="new/%s/%s" % (n, name))
    f = ctx.fn("RandomQsc::new_simple")
    if ctx.anchor("RandomQsc::new_simple", f):
        I, outs, a = ctx.run(f, hooks=[Opaque("RandomQsc::new")])
        for st, v in outs:
            want = C("RandomQsc::new", a[0], ai.NONE, ai.NONE)
            ctx.hold(r, "RandomQsc::new_simple", True if v is want else (False if clear(v) and set(calls(v)) == {"RandomQsc::new"} else None), where(f), show(v, 6), key="new/simple")
    f = ctx.fn("Fbas::new_generic_unconfigured")
    if ctx.anchor("Fbas::new_generic_unconfigured", f):
        w = Adds()
        I, outs, a = ctx.run(f, hooks=[w])
        if not w.seen:
            ctx.hold("the FBAS to start with has as many nodes as asked for", f.short, None)
        for opn, facts in w.seen:
            ok = None
            if len(opn) == 1 and opn[0][0].op == "range":
                c = lin_diff(add(opn[0][0].a[1], opn[0][0].a[0], -1), a[0])
                ok = None if c is None else c == 0
            elif not opn:
                ok = None
            ctx.hold("the FBAS to start with has as many nodes as asked for", f.short, ok, where(f), show(opn[0][0], 5) if opn else "", key="unconfigured")
    f = ctx.fn("Simulator::finalize")
    if ctx.anchor("Simulator::finalize", f):
        spec(ctx, "the simulated FBAS is handed over as it is", f, lambda s: [({}, F(s, "fbas"))])
    f = ctx.fn("Simulator::new")
    if ctx.anchor("Simulator::new", f):
        I, outs, a = ctx.run(f)
        for st, v in outs:
            for i, n in enumerate(("fbas", "qsc", "monitor")):
                x = fields(v).get(n) if v.op == "agg" else None
                ctx.hold(r, "Simulator::new, " + n, None if x is None else (True if x is a[i] else (False if clear(x) and x.op == "sym" else None)), where(f), "", key="new/Simulator/" + n)


def check(ctx):
    generator(ctx)
    simulator(ctx)
    constructors(ctx)
