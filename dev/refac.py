#!/usr/bin/env python3
"""Robustness self-test: apply a behaviour-preserving rewrite (dev/refac.cpp) at every site of the first-party sources in a
scratch copy and run the checks, which must stay quiet.   refac.py MODE [--only FILE,...] [--props C01,...] [--keep N] [--seed N] [--nocheck]"""
import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import facts
mode = sys.argv[1]
def opt(n, d=None):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
seed, keep = opt("--seed", "1"), opt("--keep", "1000")
S = opt("--dir", "/tmp/ref_" + mode)
shutil.rmtree(S, ignore_errors=True)
shutil.copytree("/repo", S, symlinks=True, ignore=shutil.ignore_patterns(".build", "*.o", "*.a", ".git", "bedrock", "test"))
os.makedirs(S + "/test", exist_ok=True)
only = opt("--only")
facts.REPO = S
cpp, hdr = facts.sources()
cpp = [c for c in cpp if os.path.relpath(c, S) in only.split(",")] if only else [c for c in cpp if not c.endswith(("qrf.cpp", "sqlite3.cpp"))]
fl = facts.flags_for("")
def orig(c): return os.path.join("/repo", os.path.relpath(c, S))
def parses(c): return subprocess.run(["clang++-18", "-fsyntax-only"] + fl + [c], capture_output=True, text=True)
def one(c):
    last = ""
    hs = {h: open(h).read() for h in hdr} if mode == "impl" else {}
    for k, s in [(keep, seed)] + [(str(int(keep) * x // 10), str(y)) for x in (7, 5, 3, 1) for y in (11, 12, 13)]:
        shutil.copy(orig(c), c)
        for h, txt in hs.items():
            if open(h).read() != txt:
                open(h, "w").write(txt)
        r = subprocess.run(["/tmp/refac", mode, S + "/", s, k, c, "--"] + fl, capture_output=True, text=True)
        p = parses(c)
        if p.returncode == 0:
            return os.path.relpath(c, S), r.stdout.strip(), k
        last = p.stderr
        if "-v" in sys.argv:
            print(k, last[:600], flush=True)
    shutil.copy(orig(c), c)
    for h, txt in hs.items():
        open(h, "w").write(txt)
    return os.path.relpath(c, S), "0", "none parses: " + last[:200]
w = 1 if mode == "impl" else 8
with ThreadPoolExecutor(w) as ex:
    res = list(ex.map(one, cpp))
print(mode, "sites", sum(int(r[1] or 0) for r in res), "partial:", [(r[0], r[1], r[2]) for r in res if r[2] != keep][:20], flush=True)
if "--nocheck" in sys.argv:
    sys.exit()
import json
ids = opt("--props")
ids = ids.split(",") if ids else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
env = dict(os.environ, BSA_REPO=S)
subprocess.run([sys.executable, "-m", "sa.facts"], cwd=V, env=env)
def chk(i):
    r = subprocess.run([sys.executable, "check.py", i], cwd=V, env=env, capture_output=True, text=True)
    open("/tmp/refac_%s_%s.log" % (mode, i), "w").write(r.stdout + r.stderr)
    return i, r.returncode, r.stdout
with ThreadPoolExecutor(7) as ex:
    for i, rc, o in ex.map(chk, ids):
        if rc:
            ls = [l for l in o.splitlines() if l.startswith("  ")]
            print("%s rc=%d n=%d  %s" % (i, rc, len(ls), " || ".join(l.strip()[:230] for l in ls[:4])), flush=True)
print("done", mode, flush=True)
