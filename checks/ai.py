"""Interprocedural value-flow analysis on MIR.

Every local, field and collection is abstracted by a term that says where its value comes from
(terms.py).  Branches add facts about terms to the path; loops and iterator chains are both
reduced to comprehensions (element, guards, bound elements), so that the two spellings of the same
computation have the same abstract value.  Functions of the analysed crates are inlined (recursion
is cut and leaves an opaque call term); library functions are given by models.py.  Nothing is
executed, no path is handed to a solver."""
import heapq, re, sys
from mir import *
from mir import ty as mkty, subst as tsubst
import terms
from terms import *

sys.setrecursionlimit(20000)
LOGS = ("debug!", "info!", "warn!", "trace!", "error!", "log!", "debug_assert!", "debug_assert_eq!", "debug_assert_ne!")
CAP = 64


ALTS = 3  # conditions per path up to which the alternative of two paths is kept as a condition


class Loop:
    __slots__ = ("id", "cells", "facts", "nopen", "kind", "entry")

    def __init__(self, id, st, kind="loop"):
        self.id = id
        self.cells = set(st.cells)
        self.entry = dict(st.cells)
        self.facts = set(st.facts.items())
        self.nopen = len(st.open)
        self.kind = kind


class State:
    __slots__ = ("cells", "facts", "open", "loops", "bor", "marks", "done", "og", "lossy", "lost")

    def __init__(self):
        self.cells = {}
        self.facts = {}
        self.open = ()
        self.og = ()
        self.loops = ()
        self.bor = {}
        self.marks = frozenset()
        self.done = None
        self.lossy = False  # conditions of merged paths were weakened ...
        self.lost = False  # ... and not kept as an alternative

    def clone(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = dict(self.facts)
        s.open, s.og, s.loops, s.marks, s.done = self.open, self.og, self.loops, self.marks, self.done
        s.lossy, s.lost = self.lossy, self.lost
        s.bor = dict(self.bor) if self.bor else {}
        return s

    def alternatives(self, most=12):
        """the paths that were merged into this state, as far as their conditions were kept"""
        if not self.lossy or self.lost:
            return [self]
        todo, out = [self], []
        while todo:
            s = todo.pop(0)
            t = next((k for k, v in s.facts.items() if k.op == "and" and v is False), None)
            if t is None:
                s.lossy = False
                out.append(s)
                continue
            prior = []
            for x in t.a:
                n = s.clone()
                del n.facts[t]
                if all(n.assume(y, True) for y in prior) and n.assume(x, False):
                    todo.append(n)
                prior.append(x)
            if len(todo) + len(out) > most:
                return [self]
        return out

    # -- facts ---------------------------------------------------------------------------------
    def known(self, t):
        if t.op == "bool":
            return t.a[0]
        if t.op == "not":
            k = self.known(t.a[0])
            return None if k is None else not k
        k = self.facts.get(t)
        if k is not None:
            return k
        if t.op == "and":
            ks = [self.known(x) for x in t.a]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        if t.op == "is":
            for u, v in self.facts.items():
                if v and u.op == "is" and u.a[0] is t.a[0] and u.a[1] != t.a[1]:
                    return False
        if t.op == "eq0":
            c, d = lin_parts(t.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                for u, v in self.facts.items():
                    if v and u.op == "eq0" and u is not t:
                        c2, d2 = lin_parts(u.a[0])
                        if d2 == d and c2 != c:
                            return False
                if c == 0 and self.facts.get(mk("le0", mk_lin(1, {x: -1}))) is True:
                    return False
        if t.op == "le0":
            c, d = lin_parts(t.a[0])
            if len(d) == 1:
                (x, k), = d.items()
                if k == 1 and c < 0 and self.facts.get(eq0(x)) is True:
                    return True
        if t.op in ("eq0", "le0"):
            c, d = lin_parts(t.a[0])
            if d:
                lo, hi = self.range(d)
                if lo is not None and lo > -c or t.op == "eq0" and hi is not None and hi < -c:
                    return False
                if hi is not None and (t.op == "le0" and hi <= -c or lo == hi == -c):
                    return True
        if t.op == "any" and len(t.a) == 1:
            # some one of a few given conditions
            rs = []
            for p in t.a[0]:
                e, g, b = p.a
                ks = [self.known(k) for k, _ in g]
                r = None
                if any(k is not None and k != v for k, (_, v) in zip(ks, g)):
                    r = False
                elif e is TRUE and not b and all(k == v for k, (_, v) in zip(ks, g)):
                    return True
                rs.append(r)
            if rs and all(r is False for r in rs):
                return False
        return None

    def range(self, d):
        """what the facts say about the least and greatest value of a sum"""
        lo = hi = None
        n = len(d)
        if n == 1:
            (x, k), = d.items()
            if k == 1 and x.op == "len":
                lo = 0
                if self.facts.get(mk("eq0", x)) is False:
                    lo = 1
        neg = None
        for u, v in self.facts.items():
            if u.op != "le0" and not (u.op == "eq0" and v):
                continue
            c, e = lin_parts(u.a[0])
            if len(e) != n:
                continue
            if e == d:
                if u.op == "eq0":
                    a = b = -c
                elif v:
                    a, b = None, -c
                else:
                    a, b = 1 - c, None
            else:
                if neg is None:
                    neg = {x: -k for x, k in d.items()}
                if e != neg:
                    continue
                if u.op == "eq0":
                    a = b = c
                elif v:
                    a, b = c, None
                else:
                    a, b = None, c - 1
            lo = a if lo is None or a is not None and a > lo else lo
            hi = b if hi is None or b is not None and b < hi else hi
        return lo, hi

    def assume(self, t, v):
        """add the fact; False if contradictory"""
        while t.op == "not":
            t, v = t.a[0], not v
        k = self.known(t)
        if k is not None:
            return k == v
        if t.op == "and":
            if v:
                for x in t.a:
                    if not self.assume(x, True):
                        return False
            else:
                rest = [x for x in t.a if self.known(x) is not True]
                if len(rest) == 1:
                    return self.assume(rest[0], False)
                self.facts[and_(*rest)] = False
                return True
        self.facts[t] = v
        return True

    def guards(self, cell):
        """facts gained since the outermost loop which the cell predates"""
        for L in self.loops:
            if cell in L.cells:
                return frozenset(x for x in self.facts.items() if x not in L.facts)
        return NOFACTS

    def gained(self, base):
        return frozenset(x for x in self.facts.items() if base.get(x[0]) != x[1])


class Frame:
    __slots__ = ("fn", "id", "env", "up", "site", "heap", "cells")

    def __init__(self, fn, id, env, up, site, heap=None, args=()):
        self.cells = [a for a in args if a.op in ("clo", "cellv")]
        self.fn, self.id, self.env, self.up, self.site, self.heap = fn, id, env, up, site, heap

    def stack(self):
        f, r = self, []
        while f:
            r.append(f.fn)
            f = f.up
        return r

    def where(self, span=None):
        s = span or self.site or self.fn.span
        return "%s (%s:%s)" % (self.fn.short, s[0], s[1])


class Hook:
    """per-check observers; every method may be overridden"""

    def opaque(self, I, fn):
        """True: do not inline this function"""
        return False

    def call(self, I, st, fr, span, name, fn, args):
        """before a call; a list of (state, value) replaces it"""
        return None

    def ret(self, I, st, fr, fn, args, val):
        pass

    def panic(self, I, st, fr, span, what):
        pass

    def write(self, I, st, fr, span, cell, path, val):
        pass

    def check(self, I, st, fr, span, msg, cond):
        """overflow / bounds assertions"""


class Analysis_:
    pass


class Interp:
    FIDS = {}  # frame numbers, the same in all runs

    def __init__(self, prog, hooks=()):
        self.prog = prog
        self.hooks = list(hooks)
        self.fids = Interp.FIDS
        self.lvdefs = {}
        self.lvids = {}
        self.events = []
        self.stats = {"functions": set(), "calls": 0, "loops": 0, "states": 0, "external": {}}
        self.depth = 0
        self.headparts = {}
        self.budget = None
        for a in prog.adts.values():
            if len(a["v"]) == 2:
                x, y = sorted(n for n, _ in a["v"])
                if y not in TWO and x not in TWO and y not in ("Some", "Ok"):
                    TWO[y] = x
        import models
        self.models = models.Models(self)

    # -- frames --------------------------------------------------------------------------------
    def fid(self, *k):
        r = self.fids.get(k)
        if r is None:
            r = self.fids[k] = len(self.fids) + 1
        return r

    def event(self, *e):
        self.events.append(e)

    # -- memory --------------------------------------------------------------------------------
    def getcell(self, st, c):
        v = st.cells.get(c)
        if v is None:
            if c[0] == "o":
                return c[1]
            return mk("undef", str(c))
        return v

    def getpath(self, v, path):
        var = None
        for s in path:
            k = s[0]
            if k == "f":
                v = self.field(v, s[1], var)
                var = None
            elif k == "d":
                var = s[1]
            elif k == "i":
                v = getidx(v, s[1])
            elif k == "e":
                v = self.getelem(v, s[1])
        return v

    def getelem(self, v, e):
        if v.op == "coll":
            for kk, x, g, b in reversed(v.a[2]):
                if kk is e and not b:
                    return x
        return e

    def field(self, v, n, var=None):
        if var is not None:
            return pay(v, var, n)
        return fld(v, n)

    def setfield(self, v, n, new, var=None):
        if v.op == "agg":
            d = [(k, x) for k, x in v.a[2] if k != n] + [(n, new)]
            base = v.a[3]
            if base is not None and new is fld(base, n):
                d = d[:-1]
                if not d:
                    return base
            return agg(v.a[0], v.a[1], d, base)
        if new is fld(v, n):
            return v
        return agg("?", var or "", [(n, new)], v)

    def setpath(self, v, path, new, g):
        if not path:
            return new
        s = path[0]
        if s[0] == "f":
            return self.setfield(v, s[1], self.setpath(self.field(v, s[1]), path[1:], new, g))
        if s[0] == "d":
            if len(path) > 1 and path[1][0] == "f":
                n = path[1][1]
                old = self.field(v, n, s[1])
                return self.setfield(v, n, self.setpath(old, path[2:], new, g), s[1])
            return v
        if s[0] in ("i", "e"):
            k = s[1]
            old = getidx(v, k) if s[0] == "i" else self.getelem(v, k)
            return self.setidx(v, k, self.setpath(old, path[1:], new, g), g)
        return v

    def setidx(self, v, k, new, g):
        if v.op == "coll":
            if k.op == "int" and not v.a[2] and not g and all(not p.a[1] and not p.a[2] for p in v.a[1]) and k.a[0] < len(v.a[1]) and v.a[0] not in SETS:
                ps = list(v.a[1])
                ps[k.a[0]] = part(new)
                return mk("coll", v.a[0], tuple(ps), (), nopos(v.a[3]))
            over = [o for o in v.a[2] if not (o[0] is k and not o[3])]
            return coll(v.a[0], v.a[1], over + [(k, new, frozenset(g), ())], nopos(v.a[3]))
        if new is getidx(v, k) and not g:
            return v
        return coll("vec", parts_of(v), [(k, new, frozenset(g), ())])

    def read(self, st, r):
        """value behind a reference term (identity for values)"""
        n = 0
        while r.op == "ref" and n < 20:
            r = self.getpath(self.getcell(st, r.a[0]), r.a[1])
            n += 1
        return r

    def deref1(self, st, r):
        if r.op == "ref":
            return self.getpath(self.getcell(st, r.a[0]), r.a[1])
        return r

    def store(self, st, cell, path, val, fr=None, span=None):
        old = self.getcell(st, cell)
        st.cells[cell] = self.setpath(old, path, val, st.guards(cell) if path else NOFACTS)
        for h in self.hooks:
            h.write(self, st, fr, span, cell, path, val)

    def mutref(self, st, r):
        """innermost (cell, path) designated by a &mut value"""
        n = 0
        if r.op != "ref":
            return ("o", r), ()
        while n < 20:
            v = self.getpath(self.getcell(st, r.a[0]), r.a[1])
            if v.op == "ref":
                r = v
                n += 1
            else:
                break
        return r.a[0], r.a[1]

    def mutate(self, st, r, f, fr=None, span=None):
        """*r = f(old, guards)"""
        cell, path = self.mutref(st, r)
        old = self.getpath(self.getcell(st, cell), path)
        self.store(st, cell, path, f(old, st.guards(cell)), fr, span)
        return old

    def refto(self, r, *steps):
        if r.op == "ref":
            return mk("ref", r.a[0], r.a[1] + steps)
        return mk("ref", ("o", r), tuple(steps))

    def removed_known(self, st, old, x, p):
        return True

    # -- operands ------------------------------------------------------------------------------
    def place_loc(self, st, fr, pl):
        """(cell, path) of a place"""
        cell, path = (fr.id, pl[0]), ()
        for e in pl[1]:
            if e == "*":
                v = self.getpath(self.getcell(st, cell), path)
                if v.op == "ref":
                    cell, path = v.a[0], v.a[1]
                elif v.op in ("agg", "coll", "undef") or self._owned(fr, pl, e):
                    pass
                else:
                    cell, path = ("o", v), ()
            elif e == "o":
                pass
            elif e[0] == "f":
                path += (("f", e[1]),)
            elif e[0] == "d":
                path += (("d", e[1]),)
            elif e[0] == "i":
                path += (("i", self.getcell(st, (fr.id, e[1]))),)
            elif e[0] == "c":
                path += (("i", I(e[1]) if not e[2] else mk("fromend", e[1])),)
            else:
                path += (("i", mk("slicefrom", *[x for x in e[1:]])),)
        return cell, path

    def _owned(self, fr, pl, e):
        t = fr.fn.locals[pl[0]]
        return t.k == "adt" and len([x for x in pl[1] if x == "*"]) <= 1

    def read_place(self, st, fr, pl):
        v = self.getcell(st, (fr.id, pl[0]))
        var = None
        for e in pl[1]:
            if e == "*":
                v = self.deref1(st, v)
            elif e == "o":
                pass
            elif e[0] == "f":
                if v.op == "ref":
                    v = self.read(st, v)
                v = self.field(v, e[1], var)
                var = None
            elif e[0] == "d":
                if v.op == "ref":
                    v = self.read(st, v)
                var = e[1]
            elif e[0] == "i":
                v = getidx(self.read(st, v), self.getcell(st, (fr.id, e[1])))
            elif e[0] == "c":
                v = getidx(self.read(st, v), I(e[1]) if not e[2] else mk("fromend", e[1]))
            else:
                v = mk("slice", self.read(st, v), I(e[1]), I(e[2]), B(e[3]))
        if var is not None:
            pass
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            v = self.read_place(st, fr, o[1])
            if k == "mv" and st.bor and not o[1][1]:
                b = st.bor.pop((fr.id, o[1][0]), None)
                if b:
                    st.bor["moved"] = b
            return v
        if k == "int":
            return I(o[1])
        if k == "bool":
            return B(o[1])
        if k == "float":
            return mk("float", str(o[1]))
        if k == "str":
            return mk("str", o[1])
        if k == "bytes":
            return mk("bytes", o[1])
        if k == "promoted":
            return self.promoted(o[1], fr)
        if k == "fn":
            return self.fnval(fr, o[1])
        if k == "const":
            return self.constant(fr, o)
        return mk("opaque", str(o))

    def fnval(self, fr, ref):
        ts = fr.fn.types
        ta = tuple(tsubst(ts[x], fr.env) for x in ref["ta"])
        return mk("fn", ref["p"], ref["n"], ref["res"], ref["rk"], ref["tr"], ta, ref["u"], fr.fn.crate)

    def promoted(self, id, fr):
        fn = self.prog.fns.get(id)
        if fn is None:
            return mk("const", id)
        outs = self.run_fn(fn, [], State(), dict(fr.env), fr, None, raw=True)
        if outs:
            return outs[0][1]
        return mk("const", id)

    def constant(self, fr, o):
        dbg, t, named = o[1], fr.fn.types[o[2]], o[3]
        tt = strip_refs(t)
        if tt.k == "tuple" and not tt.a[1]:
            return UNIT
        if tt.k == "closure":
            return mk("clo", tt.a[1], (), tuple(sorted(fr.env.items())))
        if tt.k == "fndef":
            return mk("fn", tt.a[1], tt.a[1].split("::")[-1], tt.a[1], "item", None, tt.a[2], tt.a[1], fr.fn.crate)
        if tt.k == "adt":
            a = self.prog.adts.get(tt.a[1])
            if a and len(a["v"]) == 1 and not a["v"][0][1]:
                return agg(tt.a[1], a["v"][0][0], ())
        if named and named in self.prog.fns:
            outs = self.run_fn(self.prog.fns[named], [], State(), {}, fr, None, raw=True)
            if outs:
                return outs[0][1]
        return mk("const", named or str(dbg), tystr(t))

    # -- rvalues -------------------------------------------------------------------------------
    def rvalue(self, st, fr, rv, dest, span):
        k = rv[0]
        if k == "use":
            v = self.operand(st, fr, rv[1])
            b = st.bor.pop("moved", None)
            if b and not dest[1]:
                st.bor[(fr.id, dest[0])] = b
            return v
        if k == "ref":
            mut, pl = rv[1], rv[2]
            if mut:
                cell, path = self.place_loc(st, fr, pl)
                if path and path[-1][0] == "d":
                    path = path[:-1]
                return mk("ref", cell, path)
            return self.read_place(st, fr, pl)
        if k == "cast":
            if rv[1] == "BoxDerefTransmute" and rv[2][0] in ("cp", "mv") and rv[2][1][1] and rv[2][1][1][-1] == ["f", "0"]:
                # the pointer inside a box is the box
                return self.read_place(st, fr, [rv[2][1][0], rv[2][1][1][:-1]])
            v = self.operand(st, fr, rv[2])
            if rv[1] == "IntToFloat":
                return mk("f64", v)
            if rv[1] in ("FloatToInt", "FloatToFloat"):
                return mk("cast", rv[1], v)
            if rv[1] == "IntToInt":
                t = tystr(fr.fn.types[rv[3]]) if isinstance(rv[3], int) else ""
                if t in ("u8", "u16", "u32", "i8", "i16", "i32") and v.op not in ("int", "bool"):
                    for h in self.hooks:
                        h.check(self, st, fr, None, "narrow " + t, v)
                    return mk("call", "narrowed::" + t, (v,))
                return v
            return v
        if k == "bin":
            return self.binop(st, fr, rv[1], self.read(st, self.operand(st, fr, rv[2])), self.read(st, self.operand(st, fr, rv[3])),
                              self.opty(fr, rv[2]), span)
        if k == "un":
            v = self.read(st, self.operand(st, fr, rv[2]))
            if rv[1] == "Not":
                return not_(v) if tystr(self.opty(fr, rv[2]) or v) == "bool" or v.op in ("bool", "not", "and") else mk("bitnot", v)
            if rv[1] == "Neg":
                if v.op == "int":
                    return I(-v.a[0])
                return mk("neg", v)
            if rv[1] == "PtrMetadata":
                return length(v)
            return mk("un", rv[1], v)
        if k == "discr":
            v = self.read(st, self.read_place(st, fr, rv[1]))
            return mk("discr", v, tuple((a, b) for a, b in rv[2]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            h = rv[1]
            if h[0] == "array":
                return coll("vec", [], ()) if not ops else mk("coll", "vec", tuple(part(x) for x in ops), (), frozenset())
            if h[0] == "tuple":
                return tup(*ops) if ops else UNIT
            if h[0] == "adt":
                v = agg(h[1], h[2], zip(h[3], ops))
                return self.eta(v)
            if h[0] == "closure":
                return mk("clo", h[1], tuple(ops), tuple(sorted(fr.env.items())))
            return mk("aggr", str(h), tuple(ops))
        if k == "repeat":
            return mk("coll", "vec", (part(self.operand(st, fr, rv[1])),), (), frozenset(["repeat"]))
        return mk("opaque", "rvalue", str(rv[0]), (fr.fn.id, span[1] if span else 0))

    def eta(self, v):
        """Struct{a: x.a, b: x.b, ..} = x"""
        fs = v.a[2]
        if fs and v.a[3] is None:
            n, x = fs[0]
            if x.op == "fld" and x.a[1] == n:
                b = x.a[0]
                if all(y.op == "fld" and y.a[0] is b and y.a[1] == m for m, y in fs) and len(fs) > 1:
                    if b.op in ("sym", "elem", "idx", "find", "pay", "fld", "call", "out"):
                        return b
        return v

    def opty(self, fr, o):
        if o[0] in ("cp", "mv"):
            t = fr.fn.locals[o[1][0]]
            if not o[1][1]:
                return t
            return None
        if o[0] in ("int", "bool", "float", "str"):
            return fr.fn.types[o[2]] if o[2] is not None and isinstance(o[2], int) and o[2] < len(fr.fn.types) else None
        return None

    def binop(self, st, fr, op, a, b, t, span):
        fl = (t is not None and tystr(t) in ("f64", "f32")) or a.op == "float" or b.op == "float" or a.op == "f64" or b.op == "f64"
        isb = t is not None and tystr(t) == "bool"
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if fl:
            if base in ("Add", "Mul") and b.n < a.n:
                a, b = b, a
            if base == "Gt":
                return mk("fbin", "Lt", b, a)
            if base == "Ge":
                return mk("fbin", "Le", b, a)
            if base == "Ne":
                return not_(eq(a, b))
            if base == "Eq":
                return eq(a, b)
            return mk("fbin", base, a, b)
        if base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = add(a, b, -1)
        elif base == "Mul":
            r = mul(a, b)
        elif base in ("Div", "Rem"):
            if a.op == "int" and b.op == "int" and b.a[0]:
                r = I(a.a[0] // b.a[0] if base == "Div" else a.a[0] % b.a[0])
            else:
                r = mk(base.lower(), a, b)
        elif base == "Eq":
            if isb:
                return self.beq(a, b)
            return eq(a, b) if a.op in ("agg", "is", "str") or b.op in ("agg", "str") else (ieq(a, b) if a.op != "opaque" else eq(a, b))
        elif base == "Ne":
            if isb:
                return not_(self.beq(a, b))
            return not_(eq(a, b) if a.op in ("agg", "str") or b.op in ("agg", "str") else ieq(a, b))
        elif base == "Lt":
            return lt(a, b)
        elif base == "Le":
            return le(a, b)
        elif base == "Gt":
            return lt(b, a)
        elif base == "Ge":
            return le(b, a)
        elif base == "BitAnd" and isb:
            return and_(a, b)
        elif base == "BitOr" and isb:
            return or_(a, b)
        elif base == "BitXor" and isb:
            return not_(self.beq(a, b))
        else:
            r = mk("bin", base, a, b)
        if "WithOverflow" in op:
            return tup(r, mk("ovf", base, a, b))
        return r

    def beq(self, a, b):
        return or_(and_(a, b), and_(not_(a), not_(b)))

    # -- running functions ---------------------------------------------------------------------
    def run_fn(self, fn, args, st, env, up, span, raw=False, key=None):
        """inline fn; list of (state, value)"""
        fid = self.fid(up.id if up else 0, fn.id, key)
        fr = Frame(fn, fid, env, up, span, self.heapof(st), args)
        self.stats["functions"].add(fn.id)
        st = st.clone() if raw else st
        keep = {c for c in st.cells if c[0] == fid}
        for c in keep:
            del st.cells[c]
        for i, a in enumerate(args):
            st.cells[(fid, i + 1)] = a
        self.depth += 1
        try:
            exits, backs, rets = self.region(fr, None, set(fn.cfg().rpo), 0, [st])
        finally:
            self.depth -= 1
        out = []
        for s in rets:
            v = s.cells.get((fid, 0), UNIT)
            for c in [c for c in s.cells if c[0] == fid]:
                del s.cells[c]
            if s.bor:
                b = s.bor.pop((fid, 0), None)
                for kk in [kk for kk in s.bor if kk != "moved" and kk[0] == fid]:
                    del s.bor[kk]
                if b:
                    s.bor["ret"] = b
            out.append((s, v))
        return self.merge_outcomes(out)

    def merge_outcomes(self, outs):
        if len(outs) < 2:
            return outs
        groups = []
        for s, v in outs:
            for g in groups:
                if g[1] is v and g[0].cells == s.cells and g[0].open == s.open and g[0].bor == s.bor and g[0].marks == s.marks:
                    self.meet_facts(g[0], s)
                    break
            else:
                groups.append([s, v])
        if len(groups) > CAP:
            s0 = groups[0][0]
            for s, v in groups[1:]:
                self.phi_into(s0, s)
            return [(s0, phi([v for _, v in groups]))]
        return [tuple(g) for g in groups]

    def meet_facts(self, a, b):
        # a fact and its negation under otherwise equal facts vanish; others are intersected
        f = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
        na, nb = len(a.facts) - len(f), len(b.facts) - len(f)
        if na and nb:
            d = [k for k in a.facts if k not in f]
            if not (na == nb == 1 and b.facts.get(d[0]) == (not a.facts[d[0]])):
                if na <= ALTS and nb <= ALTS:
                    # the paths differ in several conditions: keep the alternative as one condition
                    lit = lambda x: [k if v else not_(k) for k, v in sorted(x.facts.items(), key=lambda y: y[0].n) if k not in f]
                    t = or_(and_(*lit(a)), and_(*lit(b)))
                    if t.op != "bool":
                        a.lossy, a.lost = True, a.lost or b.lost
                        a.facts = f
                        a.assume(t, True)
                        return
                a.lossy = a.lost = True
        a.lossy = a.lossy or b.lossy
        a.lost = a.lost or b.lost
        a.facts = f

    def phi_into(self, a, b):
        for c in list(a.cells):
            v = b.cells.get(c)
            if v is None:
                del a.cells[c]
            elif v is not a.cells[c]:
                a.cells[c] = phi([a.cells[c], v])
        self.meet_facts(a, b)
        a.marks = a.marks & b.marks

    def fold_bool(self, base, outs):
        """outcomes of a predicate without effects -> one boolean term"""
        if len(outs) < 2:
            return outs
        s0 = outs[0][0]
        for s, v in outs:
            if s.cells != base.cells or s.open != base.open or s.marks != base.marks or s.bor != base.bor:
                return outs
            if v.op in ("phi",):
                return outs
        ds = []
        for s, v in outs:
            g = s.gained(base.facts)
            ds.append(and_(*([k if x else not_(k) for k, x in sorted(g, key=lambda y: y[0].n)] + [v])))
        t = or_(*ds)
        n = base.clone()
        return [(n, t)]

    def live_key(self, fr, st, bb):
        live = fr.fn.cfg().live.get(bb, ())
        addr = fr.fn.addr
        fid = fr.id
        return {c: v for c, v in st.cells.items() if c[0] != fid or c[1] in live or c[1] in addr or c[1] == 0}

    def merge(self, fr, bb, states):
        if len(states) < 2:
            return states
        groups = []
        for s in states:
            k = self.live_key(fr, s, bb)
            for g in groups:
                if g[0] == k and g[1].open == s.open and g[1].bor == s.bor and g[1].marks == s.marks and g[1].done == s.done:
                    self.meet_facts(g[1], s)
                    g[1].cells = k
                    break
            else:
                groups.append([k, s])
        self.stats["states"] = max(self.stats["states"], len(groups))
        if len(groups) > CAP:
            by = {}
            for g in groups:
                s = g[1]
                s.cells = g[0]
                kk = (s.open, tuple(sorted(s.bor.items(), key=str)), s.marks, s.done)
                if kk in by:
                    self.phi_into(by[kk], s)
                else:
                    by[kk] = s
            return list(by.values())
        return [g[1] for g in groups]

    def region(self, fr, header, body, start, states):
        """run the blocks of body from start; edges leaving the body are exits, edges to header
        are back edges"""
        cfg = fr.fn.cfg()
        pend = {start: list(states)}
        heap = [cfg.num[start]]
        exits, backs, rets = [], [], []
        first = True
        while heap:
            n = heapq.heappop(heap)
            bb = cfg.rpo[n]
            sts = pend.pop(bb, None)
            if not sts:
                continue
            sts = self.merge(fr, bb, sts)
            outs = []
            if bb in cfg.loops and not (bb == header and first):
                for s in sts:
                    o, r = self.run_loop(fr, bb, s)
                    outs += o
                    rets += r
            else:
                for s in sts:
                    o, r = self.block(fr, bb, s)
                    outs += o
                    rets += r
            first = False
            for tgt, s in outs:
                if tgt == header:
                    backs.append(s)
                elif tgt not in body:
                    exits.append((tgt, s))
                else:
                    if tgt not in pend:
                        pend[tgt] = []
                        heapq.heappush(heap, cfg.num[tgt])
                    pend[tgt].append(s)
        return exits, backs, rets

    def run_loop(self, fr, header, entry):
        self.stats["loops"] += 1
        cfg = fr.fn.cfg()
        body = cfg.loops[header]
        L = Loop(("L", fr.id, header), entry)
        head = entry
        passes = 0
        while True:
            passes += 1
            mark = len(self.events)
            s = head.clone()
            s.loops = s.loops + (L,)
            s.done = None
            exits, backs, rets = self.region(fr, header, body, header, [s])
            backs = self.merge(fr, header, backs)
            new = self.join_head(L, entry, head, backs, widen=passes > 3)
            if passes > 10 or self.same(new, head, L):
                break
            head = new
            del self.events[mark:]
        outs = [(t, self.leave(L, entry, head, s, backs)) for t, s in exits]
        rr = [self.leave(L, entry, head, s, backs) for s in rets]
        return outs, rr

    def same(self, a, b, L):
        return all(a.cells.get(c) is b.cells.get(c) for c in L.cells)

    def newbinds(self, L, s):
        b = s.open[L.nopen:]
        return b if b else ((mk("loop", L.id), 0),)

    def join_head(self, L, entry, head, backs, widen=False):
        n = entry.clone()
        n.cells = {}
        fs = [frozenset(x for x in s.facts.items() if x not in L.facts) for s in backs]
        common = frozenset.intersection(*fs) if fs else frozenset()
        for c, v in head.cells.items():
            if c not in L.cells:
                continue
            vals = []
            for s, f in zip(backs, fs):
                w = s.cells.get(c, v)
                vals.append((self.generalise(v, w, self.newbinds(L, s), f - common), s))
            n.cells[c] = self.joinval(L, (c,), v, vals, widen)
        return n

    def generalise(self, vh, vn, binds, g0=None):
        """the effect of one iteration (vh -> vn) as the effect of all; g0: facts of the iteration"""
        if vn is vh:
            return vn
        if vn.op == "coll":
            hp = set(vh.a[1]) if vh.op == "coll" else set()
            ho = set(vh.a[2]) if vh.op == "coll" else set()
            src = vh if vh.op != "coll" else None
            ps = []
            for p in vn.a[1]:
                if p in hp or (src is not None and not p.a[1] and isid(p) is src):
                    ps.append(p)
                else:
                    e, g, b = p.a
                    base = None
                    if g0 is not None:
                        base = next((q for q in (hp or parts_of(vh)) if q.a[0] is e and q.a[2] == b and q.a[1] < g), None)
                        if base is None and src is not None and b and isid(part(e, (), b)) is src:
                            base = part(e, (), b)
                    if base is not None:
                        # elements were taken out
                        q = base
                        for k, v in sorted(g - base.a[1], key=lambda x: x[0].n):
                            fv = freevars(k)
                            if any(elem(*x) in fv for x in binds) or any(any(elem(*x) in freevars(y[0]) for x in binds) for y in g0):
                                # "not removed by any iteration"
                                own = {elem(*x) for x in b}
                                gg = frozenset(y for y in g0 if y[0] is not k)
                                t, v2 = any_([part(TRUE, gg | {(k, not v)}, binds)]), False
                                if t.op == "not":
                                    t, v2 = t.a[0], True
                            else:
                                t, v2 = k, v
                            if t.op == "bool":
                                if (t is TRUE) is v2:
                                    continue
                                # all are taken out in the end: those of the iterations so far are missing
                                t, v2 = mk("earlier", e, k), False
                            q = part(e, q.a[1] | {(t, v2)}, b)
                        ps.append(q)
                        continue
                    if b[:len(binds)] == binds:
                        ps.append(p)
                    elif any(q.a[0] is e and q.a[2] == b and q.a[1] <= g for q in hp) and not any(elem(*x) in freevars(p) for x in binds):
                        ps.append(p)
                    else:
                        q = part(e, g, binds + b)
                        if q not in hp:
                            ps.append(q)
            ov = []
            for o in vn.a[2]:
                if o in ho or o[3][:len(binds)] == binds:
                    ov.append(o)
                elif any(elem(*x) in freevars(o[0]) for x in binds):
                    ov.append((o[0], o[1], o[2], binds + o[3]))
                else:
                    old = self.getelem(vh, o[0]) if o[0].op == "elem" else getidx(vh, o[0])
                    new = self.generalise(old, o[1], binds, g0)
                    keep = o[1].op == "coll" and not o[2] and not any(elem(*x) in freevars(new) for x in binds)
                    # a collection grown or narrowed: the same formula holds if there was no iteration
                    ov.append((o[0], new, o[2], o[3] if keep else binds + o[3]))
            out = []
            for o in ov:
                if o not in out:
                    out.append(o)
            return coll(vn.a[0], ps, out, vn.a[3])
        if vn.op == "agg" and vn.a[2]:
            same = vh.op == "agg" and vh.a[1] == vn.a[1]
            fs = []
            for k, x in vn.a[2]:
                h = (dict(vh.a[2]).get(k) if same else None)
                if h is None:
                    h = fld(vh, k)
                fs.append((k, self.generalise(h, x, binds, g0)))
            return agg(vn.a[0], vn.a[1], fs, vn.a[3])
        return vn

    def joinval(self, L, slot, v, vals, widen):
        vs = [w for w, _ in vals]
        if all(w is v for w in vs):
            return v
        allv = [v] + vs
        if not widen and any(w.op == "coll" for w in allv) and all(w.op in ("coll", "sym", "fld", "idx", "elem", "pay", "call", "out", "find", "set", "slice", "phi", "lv", "undef") for w in allv):
            k = next(w.a[0] for w in allv if w.op == "coll")
            parts, over = [], []
            tags = None
            for w in allv:
                if w.op == "undef":
                    continue
                for p in (w.a[1] if w.op == "coll" else parts_of(w)):
                    if p not in parts:
                        parts.append(p)
                    elif w.op == "coll" and w.a[1].count(p) > parts.count(p):
                        parts.append(p)
                if w.op == "coll":
                    for o in w.a[2]:
                        if o not in over:
                            over.append(o)
                tg = w.a[3] if w.op == "coll" else frozenset()
                if tags is None:
                    tags = tg
                else:
                    tags = (tags & tg) | nopos(tags | tg)
            self.taken_out(parts, v, vs)
            if len(parts) + len(over) > 40:
                return self.lv(L, slot, v, vals)
            parts.sort(key=lambda p: p in (v.a[1] if v.op == "coll" else ()) and -1 or 0)
            r = coll(k, parts, over, tags or ())
            return self.collapse(r)
        a0 = next((w for w in allv if w.op == "agg"), None)
        if a0 is not None and all((w.op == "agg" and w.a[1] == a0.a[1]) or (w.op in ("sym", "fld", "idx", "elem", "out", "lv", "call") and a0.a[3] is not None or False) for w in allv):
            names = sorted({k for w in allv if w.op == "agg" for k, _ in w.a[2]})
            bases = {w.a[3] if w.op == "agg" else w for w in allv}
            if len(bases) == 1:
                b = next(iter(bases))
                fs = []
                for k in names:
                    fs.append((k, self.joinval(L, slot + (k,), fld(v, k), [(fld(w, k), s) for w, s in vals], widen)))
                if b is not None:
                    fs = [(k, x) for k, x in fs if x is not fld(b, k)]
                    if not fs:
                        return b
                return agg(a0.a[0], a0.a[1], fs, b)
        return self.lv(L, slot, v, vals)

    def taken_out(self, parts, v, vs):
        """parts of v which iterations narrowed: all ways of narrowing apply"""
        base = parts_of(v)
        for p0 in base:
            e, g0, b = p0.a
            rs = []
            for w in vs:
                if w.op == "coll" and p0 not in w.a[1]:
                    rs += [q for q in w.a[1] if q.a[0] is e and q.a[2] == b and q.a[1] > g0 and q in parts and q not in rs and q not in base]
            if rs:
                q = part(e, frozenset().union(*[q.a[1] for q in rs]), b)
                i = parts.index(p0) if p0 in parts else parts.index(rs[0])
                parts[i] = q
                for r in rs:
                    if r is not q and r in parts:
                        parts.remove(r)
                for j in range(len(parts) - 1, i, -1):
                    if parts[j] is q:
                        del parts[j]

    def lv(self, L, slot, v, vals):
        i = L.entry.get(slot[0])
        for k in slot[1:]:
            i = fld(i, k) if i is not None else None
        t = mk("lv", L.id, slot, i.n if i is not None else None)
        d = self.lvdefs.setdefault(t, {"init": None, "upd": {}})
        d["init"] = i
        d["upd"] = {}
        for w, s in vals:
            if w is not t:
                g = frozenset(x for x in s.facts.items() if x not in L.facts)
                d["upd"].setdefault(w, []).append((g, s.open[L.nopen:]))
            else:
                d.setdefault("keep", []).append(1)
        return t

    def collapse(self, v):
        i = None
        if v.op == "coll" and v.a[0] not in SETS and not v.a[3]:
            i = identity(v)
        return v if i is None else v

    def leave(self, L, entry, head, s, backs):
        """state s leaves loop L"""
        binds = s.open[L.nopen:]
        n = s
        n.loops = tuple(x for x in n.loops if x.id != L.id)
        exhausted = s.done == L.id
        if binds:
            base = dict(L.facts)
            gained = frozenset(x for x in s.facts.items() if x not in L.facts)
            els = [elem(*b) for b in binds]
            m = {}
            dep = frozenset(x for x in gained if any(mentions(x[0], e) for e in els))
            for i, (b, e) in enumerate(zip(binds, els)):
                m[e] = mk("find", part(e, dep, binds[:i + 1]))
            for c in list(n.cells):
                v = n.cells[c]
                h = head.cells.get(c)
                if h is not None and v is not h:
                    v = self.generalise(h, v, binds)
                if any(mentions(v, e) for e in els):
                    v = self.subst_free(v, m, h)
                n.cells[c] = v
            for x in dep:
                n.facts.pop(x[0], None)
            n.open = s.open[:L.nopen]
            n.og = s.og[:L.nopen]
            if dep:
                n.assume(any_([part(TRUE, dep, binds)]), True)
        elif exhausted:
            # what held of every element
            for s2 in backs[:1]:
                b2 = s2.open[L.nopen:]
                og = s2.og[L.nopen:]
                if not b2 or any(x.open[L.nopen:] != b2 for x in backs):
                    break
                els = [elem(*b) for b in b2]
                gg = frozenset(y for x in og for y in x)
                com = None
                for x in backs:
                    f = {y for y in x.facts.items() if y not in L.facts and y not in gg and any(mentions(y[0], e) for e in els)}
                    com = f if com is None else com & f
                for t, v in com or ():
                    n.assume(any_([part(TRUE, gg | {(t, not v)}, b2)]), False)
        n.done = None
        for c, v in list(n.cells.items()):
            if c in L.cells:
                n.cells[c] = self.settle(v, backs, L, exhausted, L.entry.get(c))
        return n

    def subst_free(self, v, m, h):
        """replace elements of the left loop, except where bound in a comprehension"""
        bound = {}

        def go(x):
            if x in bound:
                return bound[x]
            if x.op == "coll":
                ps = []
                for p in x.a[1]:
                    ps.append(goparts(p))
                ov = [(go(k), go(y), frozenset((go(t), b) for t, b in g), b2) if not any(elem(*q) in m for q in b2) else (k, y, g, b2) for k, y, g, b2 in x.a[2]]
                r = coll(x.a[0], ps, ov, x.a[3])
            elif x.op in ("any", "find"):
                r = x
            elif x in m:
                r = m[x]
            elif not any(mentions(x, e) for e in m):
                r = x
            else:
                r = terms.subst(x, m) if not any(y.op in ("coll", "any") for y in subterms(x)) else rebuild(x)
            bound[x] = r
            return r

        def rebuild(x):
            def w(y):
                if isinstance(y, T):
                    return go(y)
                if isinstance(y, tuple):
                    return tuple(w(z) for z in y)
                if isinstance(y, frozenset):
                    return frozenset(w(z) for z in y)
                return y
            return mk(x.op, *[w(y) for y in x.a])

        def goparts(p):
            e, g, b = p.a
            if any(elem(*q) in m for q in b):
                return p
            return part(go(e), [(go(t), v2) for t, v2 in g], tuple((go(q[0]), q[1]) for q in b))
        return go(v)

    def settle(self, v, backs, L, exhausted, was=None):
        if v.op == "coll" and v.a[2]:
            return self.foldover(v, was.a[2] if was is not None and was.op == "coll" else ())
        if v.op == "lv" and v.a[0] == L.id and exhausted:
            return self.simplify_lv(v, backs, L)
        if v.op == "agg" and v.a[2]:
            fs = [(k, self.settle(x, backs, L, exhausted, fld(was, k) if was is not None else None)) for k, x in v.a[2]]
            if any(x is not y for (_, x), (_, y) in zip(fs, v.a[2])):
                return agg(v.a[0], v.a[1], fs, v.a[3])
        return v

    def foldover(self, v, had=()):
        """writes through iter_mut that cover the collection's own elements (not those of loops
        around the one that was left)"""
        parts, over = list(v.a[1]), []
        for k, x, g, b in v.a[2]:
            done = False
            if (k, x, g, b) not in had and (k.op == "elem" or any(p.a[0] is k for p in parts)):
                for i, p in enumerate(parts):
                    if p.a[0] is k and p.a[2] == b:
                        own = p.a[1]
                        extra = g - own
                        new = [part(x, own | extra, b)]
                        for y in extra:
                            new.append(part(k, own | {(y[0], not y[1])}, b))
                        parts[i:i + 1] = new
                        done = True
                        break
            if not done:
                over.append((k, x, g, b))
        return coll(v.a[0], parts, over, nopos(v.a[3]))

    def simplify_lv(self, t, backs, L):
        d = self.lvdefs.get(t)
        if not d or d["init"] is None:
            return t
        init, upd = d["init"], d["upd"]
        if init.op == "bool":
            if all(w.op == "bool" and w is not init for w in upd):
                ps = [part(TRUE, g, b) for w in upd for g, b in upd[w] if b]
                if ps and len(ps) == sum(len(x) for x in upd.values()):
                    a = any_(ps)
                    return a if init is FALSE else not_(a)
        ks = list(upd)
        if len(ks) == 1:
            delta = add(ks[0], t, -1) if ks[0].op in ("lin", "int") else None
            if delta is not None and delta.op == "int" and all(b for g, b in upd[ks[0]]):
                ps = [part(TRUE, g, b) for g, b in upd[ks[0]]]
                return add(init, mul(delta, mk("len", coll("iter", ps))))
        return t

    # -- blocks --------------------------------------------------------------------------------
    def block(self, fr, bb, st):
        """(list of (succ, state), list of returning states)"""
        stmts, term = fr.fn.blocks[bb]
        fid = fr.id
        for s in stmts:
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2], s[1], s[3] if len(s) > 3 else None)
                self.assign(st, fr, s[1], v, s[3] if len(s) > 3 else None)
            elif s[0] == "setd":
                pass
            elif s[0] == "dead":
                if st.bor:
                    st.bor.pop((fid, s[1]), None)
                if s[1] not in fr.fn.addr or True:
                    st.cells.pop((fid, s[1]), None)
        k = term[0]
        if k == "goto":
            return [(term[1], st)], []
        if k == "ret":
            return [], [st]
        if k == "switch":
            return self.switch(fr, st, term), []
        if k == "drop":
            if st.bor and not term[1][1]:
                st.bor.pop((fid, term[1][0]), None)
            return [(term[2], st)], []
        if k == "assert":
            c = self.operand(st, fr, term[1])
            for h in self.hooks:
                h.check(self, st, fr, term[5], term[4], c if term[2] else not_(c))
            return [(term[3], st)], []
        if k == "call":
            return self.call_term(fr, bb, st, term), []
        return [], []

    def assign(self, st, fr, pl, v, span):
        if not pl[1]:
            st.cells[(fr.id, pl[0])] = v
            return
        cell, path = self.place_loc(st, fr, pl)
        self.store(st, cell, path, v, fr, span)

    def switch(self, fr, st, term):
        v = self.operand(st, fr, term[1])
        cases, other, span = term[2], term[3], term[5]
        if span and span[2] in LOGS:
            for val, tgt in cases:
                if val == 0:
                    return [(tgt, st)]
        t = fr.fn.types[term[4]] if isinstance(term[4], int) else None
        live = lambda b: fr.fn.blocks[b] is not None and fr.fn.blocks[b][1][0] != "unreachable"
        if v.op == "discr":
            x, names = v.a[0], dict(v.a[1])
            outs = []
            listed = []
            for val, tgt in cases:
                n = names.get(val)
                if n is None:
                    continue
                listed.append(n)
                outs.append((isvar(x, n), tgt))
            rest = [n for n in names.values() if n not in listed]
            res = []
            for c, tgt in outs:
                s = st.clone()
                if s.assume(c, True) and live(tgt):
                    res.append((tgt, s))
            if live(other) and rest:
                s = st.clone()
                okk = True
                if len(rest) == 1:
                    okk = s.assume(isvar(x, rest[0]), True)
                else:
                    for c, tgt in outs:
                        okk = okk and s.assume(c, False)
                if okk:
                    res.append((other, s))
            return res
        isb = t is not None and tystr(t) == "bool"
        if v.op == "int":
            for val, tgt in cases:
                if val == v.a[0]:
                    return [(tgt, st)]
            return [(other, st)]
        res = []
        if isb or v.op in ("bool", "not", "and", "le0", "eq0", "any", "is", "eq", "contains"):
            for val, tgt in cases:
                s = st.clone()
                if s.assume(v, bool(val)) and live(tgt):
                    res.append((tgt, s))
            s = st
            if s.assume(v, not bool(cases[0][0])) and live(other):
                res.append((other, s))
            return res
        so = st.clone()
        okk = True
        for val, tgt in cases:
            c = ieq(v, I(val))
            s = st.clone()
            if s.assume(c, True) and live(tgt):
                res.append((tgt, s))
            okk = okk and so.assume(c, False)
        if okk and live(other):
            res.append((other, so))
        return res

    # -- calls ---------------------------------------------------------------------------------
    def call_term(self, fr, bb, st, term):
        _, f, args, dest, target, span = term
        av = [self.operand(st, fr, a) for a in args]
        st.bor.pop("moved", None)
        fv = self.operand(st, fr, f)
        if span and span[2] in LOGS and fv.op == "fn" and fv.a[6].startswith(("log::__private", "log::max_level")):
            outs = [(st, mk("opaque", "log"))]
        else:
            outs = self.apply(fr, st, fv, av, (fr.fn.id, bb), span)
        if target is None:
            return []
        res = []
        for s, v in outs:
            if not dest[1]:
                b = s.bor.pop("ret", None)
                if b:
                    s.bor[(fr.id, dest[0])] = b
            self.assign(s, fr, dest, v, span)
            res.append((target, s))
        return res

    def apply(self, fr, st, fv, args, key, span):
        """call a function value"""
        fv = self.read(st, fv)
        self.stats["calls"] += 1
        if fv.op == "clo":
            return self.call_closure(fr, st, fv, args, key, span)
        if fv.op != "fn":
            vals = tuple(self.read(st, a) for a in args)
            return self.opaque_call(fr, st, "dyncall", (fv,) + vals, args, span)
        p, n, res, rk, tr, ta, u, crate = fv.a
        if tr and n in ("call", "call_mut", "call_once") and tr.endswith(("::Fn", "::FnMut", "::FnOnce")) and len(args) == 2 and args[1].op == "agg" and self.read(st, args[0]).op == "clo":
            return self.apply(fr, st, self.read(st, args[0]), [x for _, x in sorted(args[1].a[2], key=lambda y: int(y[0]))], key, span)
        fn, env = self.resolve(fv, st, args)
        if fn is not None:
            return self.call_fn(fr, st, fn, env, args, key, span)
        # closures through Fn traits
        if tr and tr.endswith(("::Fn", "::FnMut", "::FnOnce")) and n in ("call", "call_mut", "call_once"):
            f2 = self.read(st, args[0])
            tupv = args[1]
            xs = [x for _, x in sorted(tupv.a[2], key=lambda y: int(y[0]))] if tupv.op == "agg" else [tupv]
            return self.apply(fr, st, f2, xs, key, span)
        # tuple-struct / variant constructors used as functions
        c = self.constructor(p, args)
        if c is not None:
            return [(st, c)]
        name = extname(u)
        for h in self.hooks:
            r = h.call(self, st, fr, span, name, None, args)
            if r is not None:
                return r
        self.stats["external"][name] = self.stats["external"].get(name, 0) + 1
        return self.models.call(fr, st, name, fv, args, key, span)

    def constructor(self, p, args):
        p = re.sub(r"::\{constructor#\d+\}$", "", p)
        for base in ("core::option::Option::Some", "core::result::Result::Ok", "core::result::Result::Err"):
            if p == base:
                return agg(base.rsplit("::", 1)[0], base.rsplit("::", 1)[1], [("0", args[0])])
        if p in self.prog.adts:
            a = self.prog.adts[p]
            if len(a["v"]) == 1:
                return agg(p, a["v"][0][0], [(f[0], x) for f, x in zip(a["v"][0][1], args)])
        q = p.rsplit("::", 1)
        if len(q) == 2 and q[0] in self.prog.adts:
            for vn, fs in self.prog.adts[q[0]]["v"]:
                if vn == q[1]:
                    return agg(q[0], vn, [(f[0], x) for f, x in zip(fs, args)])
        return None

    def resolve(self, fv, st, args):
        p, n, res, rk, tr, ta, u, crate = fv.a
        fns = self.prog.fns
        if tr is None:
            f = fns.get(res) or fns.get(p)
            if f is not None:
                env = dict(zip(f.gen, ta)) if len(f.gen) == len(ta) else dict(zip(f.gen[-len(ta):], ta)) if ta else {}
                return f, env
            return None, None
        if res in fns and rk == "item":
            f = fns[res]
            env = {}
            if f.of_trait:
                env = dict(zip(f.gen, ta))
            else:
                if f.selfty is not None and ta:
                    unify(f.selfty, ta[0], env)
                rest = [g for g in f.gen if g not in env]
                if rest:
                    env.update(zip(rest, ta[-len(rest):]))
            if not (f.of_trait and self.impl_for(tr, n, ta) is not None):
                return f, env
        if ta:
            im = self.impl_for(tr, n, ta)
            if im is not None:
                f, env = im
                rest = [g for g in f.gen if g not in env]
                if rest and len(ta) > len(rest):
                    env.update(zip(rest, ta[-len(rest):]))
                return f, env
        if p in fns and rk != "virtual" and fns[p].of_trait and ta and strip_refs(ta[0]).k != "dyn":
            f = fns[p]
            return f, dict(zip(f.gen, ta))
        return None, None

    def impl_for(self, tr, n, ta):
        t0 = ta[0]
        for cand in (t0, strip_refs(t0)):
            for selfty, fid, im in self.prog.trimpl.get((tr, n), ()):
                env = {}
                if selfty.k == "param":
                    continue
                if unify(selfty, cand, env) and fid in self.prog.fns:
                    return self.prog.fns[fid], env
        return None

    def call_closure(self, fr, st, clo, args, key, span):
        fn = self.prog.fns.get(clo.a[0])
        if fn is None:
            return self.opaque_call(fr, st, "closure", (clo,), args, span)
        env = dict(clo.a[2])
        self_ = agg("closure", "", [(str(i), v) for i, v in enumerate(clo.a[1])])
        if self.reentry(fr, fn, env, st, args):
            return self.opaque_call(fr, st, "rec:" + fn.id, tuple(self.read(st, a) for a in args), args, span)
        base = st.clone()
        outs = self.run_fn(fn, [self_] + list(args), st, env, fr, span, key=key)
        if tystr(fn.retty()) == "bool":
            outs = self.fold_bool(base, outs)
        return outs

    def call_fn(self, fr, st, fn, env, args, key, span):
        for h in self.hooks:
            r = h.call(self, st, fr, span, fn.short, fn, args)
            if r is not None:
                return r
        if fn.derived and fn.name in ("clone", "clone_from", "eq", "ne", "cmp", "partial_cmp", "hash", "fmt", "serialize", "deserialize", "lt", "le", "gt", "ge"):
            vals = [self.read(st, a) for a in args]
            if fn.name == "clone":
                return [(st, vals[0])]
            if fn.name == "eq":
                return [(st, eq(vals[0], vals[1]))]
            if fn.name == "ne":
                return [(st, not_(eq(vals[0], vals[1])))]
            return self.opaque_call(fr, st, fn.short, tuple(vals), args, span)
        if any(h.opaque(self, fn) for h in self.hooks) or self.reentry(fr, fn, env, st, args) or self.depth > 60:
            return self.opaque_call(fr, st, fn.short, tuple(self.read(st, a) for a in args), args, span)
        base = st.clone() if tystr(fn.retty()) == "bool" else None
        argv = list(args)
        outs = self.run_fn(fn, args, st, env, fr, span, key=key)
        if base is not None:
            outs = self.fold_bool(base, outs)
        for s, v in outs:
            for h in self.hooks:
                h.ret(self, s, fr, fn, argv, v)
        return outs

    def heapof(self, st):
        return frozenset((c, v) for c, v in st.cells.items() if c[0] == "h")

    def reentry(self, fr, fn, env, st, args):
        """recursion, as opposed to another instance of a generic function or a call after caches
        were filled"""
        n = 0
        heap = self.heapof(st)
        cells = [a for a in args if a.op in ("clo", "cellv")]
        f = fr
        while f:
            if f.fn.id == fn.id:
                n += 1
                if n > 2 or f.env == env and (f.heap == heap or not heap) and f.cells == cells:
                    return True
            f = f.up
        return False

    def opaque_call(self, fr, st, name, vals, args, span):
        c = call(name, *vals)
        for i, a in enumerate(args):
            a0 = a
            if a0.op == "ref":
                cell, path = self.mutref(st, a0)
                self.store(st, cell, path, mk("out", c, i), fr, span)
            elif a0.op == "clo":
                pass
        return [(st, c)]

    # -- comprehension helpers -----------------------------------------------------------------
    def open_part(self, st, p):
        """bind the elements of a part in st (fresh tags); returns the element or None if guards
        contradict"""
        e, g, b = p.a
        m = {}
        nb = []
        for src, tag in b:
            if m:
                src = terms.subst(src, m)
            t = 0
            while (src, t) in st.open or (src, t) in nb:
                t += 1
            if (src, t) != (b[len(nb)][0], tag):
                m[elem(b[len(nb)][0], tag)] = elem(src, t)
            nb.append((src, t))
        if m:
            e = terms.subst(e, m)
            g = frozenset((terms.subst(k, m), v) for k, v in g)
        st.open = st.open + tuple(nb)
        st.og = st.og + tuple([g] + [frozenset()] * (len(nb) - 1) if nb else [])
        for k, v in sorted(g, key=lambda x: x[0].n):
            if not st.assume(k, v):
                return None
        return e

    def each(self, fr, st, it, body, key, once=False):
        """abstractly run body(state, element) for the elements of `it`; returns (state after,
        [(value, guards, binds)])"""
        it = self.read(st, it)
        parts = parts_of(it)
        L = Loop(("E", fr.id if fr else 0, key), st, "each")
        entry = st
        head = st
        passes = 0
        while True:
            passes += 1
            mark = len(self.events)
            backs, results = [], []
            for p in parts:
                s = head.clone()
                s.loops = s.loops + (L,)
                e = self.open_part(s, p)
                if e is None:
                    continue
                for s2, v in body(s, e):
                    nb = s2.open[L.nopen:]
                    g = frozenset(x for x in s2.facts.items() if x not in L.facts)
                    results.append((v, g, nb))
                    backs.append(s2)
            if all(s2.cells.get(c) is head.cells[c] for s2 in backs for c in L.cells):
                new = head
                break
            new = self.join_head(L, entry, head, backs, widen=passes > 3)
            if passes > 8 or self.same(new, head, L):
                break
            head = new
            del self.events[mark:]
        if new is not entry:
            out = new.clone()
            out.loops = entry.loops
            out.facts = dict(entry.facts)
            out.open, out.og = entry.open, entry.og
            for c, v in list(out.cells.items()):
                out.cells[c] = self.settle(v, backs, L, True, L.entry.get(c))
        else:
            out = st
        return out, self.dedup_results(results)

    def dedup_results(self, rs):
        """merge results with the same value whose guards differ in one literal"""
        rs = list(dict.fromkeys(rs))
        ch = True
        while ch:
            ch = False
            for i in range(len(rs)):
                for j in range(i):
                    (v, g, b), (v2, g2, b2) = rs[i], rs[j]
                    if v is v2 and b == b2:
                        d1, d2 = g - g2, g2 - g
                        if len(d1) == 1 and len(d2) == 1:
                            (k1, x1), = d1
                            (k2, x2), = d2
                            if k1 is k2 and x1 != x2:
                                rs[j] = (v, g & g2, b)
                                del rs[i]
                                ch = True
                                break
                        elif not d1 or not d2:
                            rs[j] = (v, g & g2, b)
                            del rs[i]
                            ch = True
                            break
                if ch:
                    break
        return rs

