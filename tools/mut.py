#!/usr/bin/env python3
"""mut.py <property|-> <file> <old> <new> [n]: run checks on a scratch copy with one replacement
   mut.py <property> -p <patch>"""
import sys, os, subprocess, shutil, tempfile
R = "/tmp/mutwork"
def run(props, edit):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        for n in ("src", "Cargo.toml", "Cargo.lock", "benches", "examples", "tests"):
            s = os.path.join("/repo", n)
            if os.path.isdir(s): shutil.copytree(s, os.path.join(d, n))
            elif os.path.exists(s): shutil.copy(s, d)
        if edit(d) is False:
            print("EDIT FAILED"); return 2
        for n in ("src/lib.rs",):
            os.utime(os.path.join(d, n))
        r = subprocess.run(["python3", "/verif/checks/run.py"] + props, env=dict(os.environ, FBAS_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("\n".join(l[:int(os.environ.get("W", "330"))] for l in r.stdout.splitlines()[-int(os.environ.get("N", "14")):]))
        return r.returncode
    finally:
        shutil.rmtree(d)
def rep(f, old, new, n=0):
    def e(d):
        p = os.path.join(d, f); s = open(p).read()
        if s.count(old) <= n: return False
        i = -1
        for _ in range(n + 1): i = s.index(old, i + 1)
        open(p, "w").write(s[:i] + new + s[i + len(old):])
    return e
def patch(pf):
    def e(d):
        return subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.abspath(pf)], cwd="/").returncode == 0
    return e
if __name__ == "__main__":
    a = sys.argv[1:]
    props = a[0].split(",")
    if a[1] == "-p":
        sys.exit(run(props, patch(a[2])))
    sys.exit(run(props, rep(a[1], a[2], a[3], int(a[4]) if len(a) > 4 else 0)))
