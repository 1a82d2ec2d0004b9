"""Common parts of the checks."""
import json, os, sys, time, hashlib, subprocess, tempfile, shutil
from mir import *
from mir import ty as mkty
from terms import *
import ai

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FBAS_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.environ.get("FBAS_EVIDENCE", os.path.join(VERIF, "evidence"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_hash(root, names):
    h = hashlib.sha256()
    for n in names:
        p = os.path.join(root, n)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, x in os.walk(p) for f in x)
        for f in fs:
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:20]


def build_driver():
    d = os.path.join(BUILD, "drv")
    r = sh(["cargo", "+nightly", "build", "--offline", "--target-dir", d], cwd=os.path.join(VERIF, "driver"))
    exe = os.path.join(d, "debug", "mirfacts")
    if r.returncode or not os.path.exists(exe):
        print(r.stdout[-3000:])
        raise SystemExit("cannot build the MIR driver")
    return exe


def load_facts():
    """MIR facts of the current tree of REPO (memoised by the content of its sources)"""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash(REPO, ["src", "Cargo.toml"] + (["Cargo.lock"] if os.path.exists(os.path.join(REPO, "Cargo.lock")) else [])) + \
        tree_hash(VERIF, ["driver/src"])[:8]
    out = os.path.join(BUILD, "facts", key)
    if not os.path.exists(os.path.join(out, "ok")):
        exe = build_driver()
        tmp = tempfile.mkdtemp(prefix="facts", dir=BUILD)
        tgt = os.environ.get("FBAS_TGT") or tempfile.mkdtemp(prefix="tgt", dir=BUILD)
        try:
            env = dict(os.environ)
            env["LD_LIBRARY_PATH"] = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip() + "/lib"
            env.update(RUSTC_WORKSPACE_WRAPPER=exe, MIRFACTS_DIR=tmp, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0")
            had = os.path.exists(os.path.join(REPO, "Cargo.lock"))
            r = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--bins"], cwd=REPO, env=env)
            if r.returncode or not os.path.exists(os.path.join(tmp, "fbas_analyzer.json")):
                print(r.stdout[-6000:])
                raise SystemExit("%s does not compile" % REPO)
            open(os.path.join(tmp, "ok"), "w").write("ok")
            os.makedirs(os.path.dirname(out), exist_ok=True)
            if os.path.exists(out):
                shutil.rmtree(out)
            os.rename(tmp, out)
        finally:
            if not os.environ.get("FBAS_TGT"):
                shutil.rmtree(tgt, ignore_errors=True)
            shutil.rmtree(tmp, ignore_errors=True)
        # keep the cache small
        ds = sorted((os.path.join(BUILD, "facts", x) for x in os.listdir(os.path.join(BUILD, "facts"))), key=lambda x: os.path.getmtime(x) if os.path.exists(x) else 0)
        for x in ds[:-16]:
            shutil.rmtree(x, ignore_errors=True)
    return Program(out)


class Ctx:
    def __init__(self, prop, tier, prog):
        self.prop, self.tier, self.prog = prop, tier, prog
        self.viol = {}
        self.obl = 0
        self.disch = 0
        self.samples = []
        self.functions = set()
        self.paths = 0
        self.callsites = 0
        self.rules = {}
        self.notes = []
        self.undecided = []

    def report(self, key, where, msg):
        """a positively established violation; key identifies it without line numbers"""
        if key not in self.viol:
            self.viol[key] = (where, msg)

    def hold(self, rule, inst, cond, where="", msg="", key=None):
        """an obligation: cond True discharged, False violated, None undecided (no alarm)"""
        self.obl += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond is None:
            self.undecided.append("%s: %s" % (rule, inst))
            return None
        if cond:
            self.disch += 1
            if len(self.samples) < 40 and self.rules[rule] <= 4:
                self.samples.append("%s: %s" % (rule, inst))
        else:
            self.report(key or "%s/%s" % (rule, inst), where, "%s: %s%s" % (rule, inst, " - " + msg if msg else ""))
        return cond

    def anchor(self, what, found):
        """an anchor that must exist: public names the property is about"""
        if not found:
            self.report("anchor/" + what, "", "%s not found: the rule has nothing to apply to" % what)
        return found

    def note_run(self, I):
        self.functions |= I.stats["functions"]
        self.callsites += I.stats["calls"]

    def floor(self, what, n, least):
        """fewer instances than the rule was built for: not a violation, but said in the evidence"""
        if n < least:
            self.hold("coverage", "only %d %s analysed, at least %d expected" % (n, what, least), None)

    # -- running functions on symbolic arguments -------------------------------------------------
    def interp(self, hooks=()):
        I = ai.Interp(self.prog, hooks)
        return I

    def fn(self, short, crate="fbas_analyzer"):
        return self.prog.one(short, crate)

    def run(self, f, args=None, hooks=(), st=None, I=None, env=None, tydefs=None):
        """analyse f on symbolic arguments; returns (interp, outcomes, args)"""
        I = I or self.interp(hooks)
        st = st or ai.State()
        av = list(args) if args is not None else [symarg(st, f, i) for i in range(f.argc)]
        e = {g: mkty("param", g) for g in f.gen}
        e.update(env or {})
        outs = [(s, v) for s0, v in I.run_fn(f, av, st, e, None, None) for s in s0.alternatives()]
        self.functions |= I.stats["functions"]
        self.callsites += I.stats["calls"]
        self.paths += len(outs)
        return I, outs, av


def symarg(st, f, i, name=None):
    t = f.argtys()[i]
    n = name or f.lnames[i + 1] or "arg%d" % i
    s = mk("sym", n)
    if t.k == "ref" and t.a[1]:
        c = ("p", n)
        st.cells[c] = s
        return mk("ref", c, ())
    return s


def holds(t):
    """True / False / None for a boolean term"""
    return t.a[0] if t.op == "bool" else None


def implied(st_facts, t):
    s = ai.State()
    s.facts = dict(st_facts)
    return s.known(t)


def where(f):
    return "%s:%s %s" % (f.file, f.span[1] if f.span else "?", f.short)
