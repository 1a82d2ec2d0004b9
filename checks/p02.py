"""History independence of Analysis queries.  The states of an Analysis object (which caches are
filled, which ID space they live in) are explored abstractly: starting from Analysis::new every
public query is analysed in every reachable cache state, the search algorithms being opaque
functions of the FBAS.  Every answer, with relabellings between ID spaces removed, must be the same
term in all states; cached values must be used with the ID space they were made for; no RefCell may
be borrowed twice in a conflicting way and no assertion or unwrap may fail in a reachable state."""
from labels import *


def norm(v, st):
    return top_tier_tokens(denote(v))


def check(ctx):
    ex = Explorer(ctx)
    seen = ex.explore()
    if not seen:
        return
    sp = Spaces({ex.fbas: "O"})
    fresh = {}
    byq = {}
    for q, hist, st, v in ex.results:
        byq.setdefault(q, []).append((hist, st, v))
    for q, l in sorted(byq.items()):
        isb = None
        f = ctx.fn("Analysis::" + q)
        if f is None:
            continue
        isb = tystr(f.retty()) == "bool"
        byh = {}
        for h, st, v in l:
            if st is None:
                w, what, stk, fs, _ = v
                hs = " after ".join([q] + (list(reversed(h)) or ["new"]))
                ctx.hold("no panic", "%s: %s" % (hs, what), False if failing(v) else None, w, "%s can fail in %s" % (what, " < ".join(stk)),
                         key="panic/%s/%s" % (q, stk[0]))
            else:
                byh.setdefault(h, []).append((cond(st), under(norm(v, st), st), v, st))
        for h in byh:
            if isb:
                # one boolean function of the conditions
                byh[h] = [(c, v, v, st) for c0, v0, _, st in byh[h] for c, v in split(c0, v0)]
        ref = byh.get(())
        ctx.hold("query answers on a fresh analysis", q, bool(ref), where(f), "no outcome")
        if not ref:
            continue
        for h, outs in byh.items():
            hs = " after ".join([q] + (list(reversed(h)) or ["new"]))
            for c, t, v, st in outs:
                comp = [r for r in ref if compatible(c, r[0])]
                bad = [r for r in comp if r[1] is not t]
                if not comp:
                    continue
                okk = not bad
                if bad and (not clear(t) or any(not clear(r[1]) for r in bad)):
                    okk = None
                ctx.hold("same answer in every state", hs, okk, where(f), "answers %s, but %s on a fresh analysis" %
                         (show(t, 7), " or ".join(show(r[1], 7) for r in bad)), key="answer/%s" % q)
        spaces = {}
        for h, outs in byh.items():
            for c, t, v, st in outs:
                x = v
                while x.op == "agg" and x.a[1] == "Some" or x.op == "agg" and "node_set" in fields(x):
                    x = x.a[2][0][1]
                if x.op == "call":
                    spaces.setdefault(sp.of(x), h)
        ctx.hold("same ID space in every state", q, len(spaces) < 2, where(f), "node IDs of %s, depending on earlier queries" % " or of ".join(spname(x) for x in spaces),
                 key="result/%s" % q)
        for h, st, v in l:
            if st is None:
                continue
            # truth of facts: an answer depending on a condition must depend on the same one
            sp.walk(v)
            for k in st.facts:
                sp.walk(k)
            for c, x in st.cells.items():
                if c[0] == "h":
                    sp.walk(x)
    for what, x, s, want, t in sp.bad:
        ctx.hold("values are used in their own ID space", what, False, "", "%s: %s holds %s but is used as %s" % (what, show(x, 5), spname(s), spname(want)), key="space/%s" % what)
    ctx.hold("values are used in their own ID space", "%d uses" % sp.count, True)
    for q, h, w in ex.double:
        ctx.hold("no conflicting borrows", q, False, w, "RefCell borrowed twice in %s after %s" % (q, ", ".join(h) or "new"), key="borrow/%s" % q)
    ctx.notes.append("%d abstract states, %d queries analysed" % (ex.states, ex.transitions))
    ctx.floor("states", ex.states, 8)
    ctx.floor("queries", ex.transitions, 80)


def cond(st):
    return frozenset((top_tier_tokens(denote(k)), v) for k, v in st.facts.items())


def compatible(a, b):
    s = ai.State()
    return all(s.assume(k, v) for k, v in sorted(a | b, key=lambda x: (x[0].n, x[1]))) and not any((k, not v) in b for k, v in a)


def clear(t):
    return not any(x.op in ("lv", "phi", "opaque", "undef", "out", "dyncall") for x in subterms(t))


def split(c, v):
    """a boolean answer as cases with a constant answer"""
    if v.op == "bool":
        return [(c, v)]
    out = []
    for x in (True, False):
        s = ai.State()
        s.facts = dict(c)
        if s.assume(v, x):
            out.append((frozenset(s.facts.items()), B(x)))
    return out


def under(t, st):
    return t


def failing(p):
    """nothing but the state of the object decides that the failure is reached"""
    w, what, stk, fs, base = p
    return not set(fs.items()) - set(base.items())
