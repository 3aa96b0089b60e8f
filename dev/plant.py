#!/usr/bin/env python3
"""Planted bugs.  plant.py new ID PROP 'needs' 'breaks' < edits   |   plant.py test ID... [--no-tests]
new: makes seeded/ID/patch.diff from textual edits (format of dev/mut.py), and copies dev/demo/* there unless present.
test: in a private mount namespace with a scratch copy bound over /repo: patch, build, stable tests, demo, check; then the same demo unpatched."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = V + "/seeded/"


def new(id, prop, needs, breaks):
    d = S + id
    os.makedirs(d, exist_ok=True)
    txt = sys.stdin.read()
    w = "/tmp/plant.new"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    cur = None
    for m in re.finditer(r"^<<<< (\S+)\n(.*?)^----\n(.*?)^>>>>", txt, flags=re.M | re.S):
        p = os.path.join(w, m.group(1))
        t = open(p).read()
        if t.count(m.group(2)) != 1:
            sys.exit("old text found %d times: %r" % (t.count(m.group(2)), m.group(2)[:80]))
        open(p, "w").write(t.replace(m.group(2), m.group(3)))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    assert diff
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for f in os.listdir(V + "/dev/demo"):
        if f in ("demo.sh", "shim.cpp") and not os.path.exists(d + "/" + f):
            shutil.copy(V + "/dev/demo/" + f, d + "/" + f)
    os.chmod(d + "/demo.sh", 0o755)
    shutil.rmtree(w)


SCRIPT = r'''
set -u
mount --bind "$W" /repo || exit 99
cd /repo
git apply "$D/patch.diff" || { echo "RESULT apply FAIL"; exit; }
bash /opt/vp/build.sh > "$W.log" 2>&1 || { echo "RESULT build FAIL"; tail -5 "$W.log"; exit; }
if [ "$TESTS" = 1 ]; then
  bash /opt/vp/test.sh "$W.json" > "$W.log" 2>&1
  python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); r=json.load(open("$W.json"))
need=set(b.get("stable",b.get("passed",b if isinstance(b,list) else [])))
miss=need-set(r["passed"])
print("RESULT tests", "ok" if not miss else "FAIL %s" % sorted(miss)[:4], len(need))
P
fi
cp -r "$D" "$W.demo"; rm -f "$W.demo"/*.diff "$W.demo"/meta.json
bash "$W.demo/demo.sh" > "$W.log" 2>&1; echo "RESULT t=$SECONDS demo-patched $? $(tail -1 $W.log)"
(cd $V; python3 check.py $PROP > "$W.log" 2>&1; echo "RESULT t=$SECONDS check $? $(grep -m1 '\[' $W.log)")
git apply -R "$D/patch.diff"; bash /opt/vp/build.sh > "$W.log" 2>&1 || echo "RESULT rebuild FAIL"
bash "$W.demo/demo.sh" > "$W.log" 2>&1; echo "RESULT t=$SECONDS demo-clean $? $(tail -1 $W.log)"
rm -rf "$W.demo"
'''


def test(ids, tests):
    for i in ids:
        meta = json.load(open(S + i + "/meta.json"))
        w = "/tmp/plant.%s" % i
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", w])
        env = dict(os.environ, W=w, D=S + i, PROP=meta["property"], V=V, TESTS="1" if tests else "0")
        r = subprocess.run(["unshare", "-m", "bash", "-c", SCRIPT], env=env, capture_output=True, text=True)
        print("==", i, meta["property"], flush=True)
        print("\n".join("   " + l[7:] if l.startswith("RESULT") else "   | " + l for l in r.stdout.splitlines() + r.stderr.splitlines()[-3:] if l.strip()), flush=True)
        shutil.rmtree(w, ignore_errors=True)


if sys.argv[1] == "new":
    new(*sys.argv[2:6])
else:
    a = [x for x in sys.argv[2:] if not x.startswith("--")] or sorted(os.listdir(S))
    test(a, "--no-tests" not in sys.argv)
