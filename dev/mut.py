#!/usr/bin/env python3
"""Self-test of the checks: applies textual edits to a scratch copy of /repo and runs one check against it.
Usage: dev/mut.py [PROP ...]   (edits live in dev/mutants/*.txt)
Format of an edit file: blocks separated by lines '=====':
  PROP expect(1|0) file name-of-edit
  <<<<
  old text
  ----
  new text
  >>>>   (repeatable, optional 'file' after <<<<)
"""
import os, re, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("MUT_DIR", "/tmp/mutrepo")


def load():
    out = []
    for f in sorted(glob.glob(V + "/dev/mutants/*.txt")):
        for b in re.split(r"^=====\n", open(f).read(), flags=re.M):
            if not b.strip():
                continue
            head, rest = b.lstrip("\n").split("\n", 1)
            prop, exp, file, name = head.split(None, 3)
            eds = []
            for m in re.finditer(r"^<<<<(?: (\S+))?\n(.*?)^----\n(.*?)^>>>>", rest, flags=re.M | re.S):
                eds.append((m.group(1) or file, m.group(2), m.group(3)))
            out.append((prop, int(exp), name, eds))
    return out


def main():
    want = set(a for a in sys.argv[1:] if not a.startswith("-"))
    shutil.rmtree(S, ignore_errors=True)
    shutil.copytree(os.environ.get("MUT_SRC", "/repo"), S, symlinks=True, ignore=shutil.ignore_patterns(".build", "*.o", "*.a", ".git", "bedrock", "test"))
    os.makedirs(S + "/test", exist_ok=True)
    bad = 0
    for prop, exp, name, eds in load():
        if want and prop not in want and name not in want:
            continue
        saved = {}
        ok = True
        for file, old, new in eds:
            p = os.path.join(S, file)
            t = open(p).read()
            saved.setdefault(p, t)
            o = old if t.count(old) else old.rstrip("\n")
            if t.count(o) < 1:
                print("??  %s %s: text not found in %s: %r" % (prop, name, file, old[:60]))
                ok = False
                break
            open(p, "w").write(t.replace(o, new if o is old else new.rstrip("\n"), 1))
        if ok:
            for q in prop.split(","):
                r = subprocess.run([sys.executable, "check.py", q], cwd=V, env=dict(os.environ, BSA_REPO=S), capture_output=True, text=True)
                good = r.returncode == exp
                bad += not good
                msg = [l for l in r.stdout.splitlines() if l.startswith("  ") and "[" in l and "]" in l and ":" in l] or r.stdout.splitlines()[-1:] + r.stderr.splitlines()[-2:]
                print("%s %s %s -> %d  %s" % ("ok " if good else "BAD", q, name, r.returncode, (msg or [""])[0][:170]), flush=True)
        for p, t in saved.items():
            open(p, "w").write(t)
    shutil.rmtree(S, ignore_errors=True)
    print("failures:", bad)


main()
