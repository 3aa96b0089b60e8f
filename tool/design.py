"""Writes DESIGN.md: the hand-written parts below, and one section per property from props.py, evidence/ and known_findings.json."""
import json, os, re, glob, sys
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(D)
RULEFILE = {}
for f in sorted(glob.glob(V + "/sa/rules/*.py")):
    for m in re.finditer(r'"(C\d\d)"', open(f).read()):
        RULEFILE.setdefault(m.group(1), os.path.basename(f))
finds = json.load(open(V + "/known_findings.json"))["findings"]
muts = {}
tot = {}
for f in sorted(glob.glob(V + "/dev/mutants/*.txt")):
    for b in open(f).read().split("====="):
        h = b.strip().split("\n")[0].split()
        if len(h) < 3:
            continue
        n = muts.setdefault(h[0], [0, 0])
        t = tot.setdefault(os.path.basename(f), [0, 0])
        i = 0 if h[1] == "1" else 1
        n[i] += 1
        t[i] += 1
seeded = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    seeded.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
head = open(D + "/design_head.md").read()
out = [head.rstrip(), "", "## The properties", ""]
notes = {}
cur = None
for l in open(D + "/design_notes.md"):
    m = re.match(r"^# (C\d\d)", l)
    if m:
        cur = m.group(1)
        notes[cur] = []
    elif cur:
        notes[cur].append(l.rstrip("\n"))
for p in PROPS:
    i = p["id"]
    out += ["### %s %s" % (i, p["title"]), "", p["statement"], "",
            "*Quantifies over* %s. *Why tests cannot settle it:* %s" % (p["quantifier"]["text"], p["why_tests_cant"]), "",
            "*Decided by* %s (`sa/rules/%s`)." % (p["technique"], RULEFILE.get(i, "?")), ""]
    ev = V + "/evidence/%s.json" % i
    if os.path.exists(ev):
        c = json.load(open(ev))["coverage"]
        rules = c.get("rules", {})
        out += ["Rules: " + "; ".join(sorted(rules)) + ".", ""]
    n = "\n".join(notes.get(i, [])).strip()
    if n:
        out += [n, ""]
    m = muts.get(i, [0, 0])
    s = "Mutants: %d bugs caught; %d edits that keep the behaviour stay quiet." % tuple(m) if sum(m) else ""
    if i in seeded:
        s += " Planted bugs caught: " + ", ".join(x[0] for x in seeded[i]) + "."
    if s:
        out += [s, ""]
    fs = [f for f in finds if f["property"] == i]
    if fs:
        out += ["Defects found: "]
        for f in fs:
            out += ["- " + f["what"]]
        out += [""]
if NOT_APPLICABLE:
    out += ["## Not applicable", ""]
    for n in NOT_APPLICABLE:
        out += ["- **%s %s**: %s" % (n["prop"]["id"], n["prop"]["title"], n["reason"])]
    out += [""]
other = [f for f in finds if f["property"] not in {p["id"] for p in PROPS}]
if other:
    out += ["## Defects found outside the claimed properties", ""] + ["- " + f["what"] for f in other] + [""]
out += ["## Which checks catch which changes", "", "Planted bugs (`seeded/`), each confirmed to build, pass the tests and fail its demonstration:", "", "| change | property | caught by | what it breaks |", "|---|---|---|---|"]
for i in sorted(seeded):
    for n, m in seeded[i]:
        out.append("| %s | %s | %s | %s |" % (n, i, m.get("caught_by", i), m["what_it_breaks"].replace("|", "/")))
out += ["", "Mutants (`dev/mutants/*.txt`, run by `dev/mut.py`; each is an edit of the sources written from a property's statement, with the exit status expected of that property's check):", "",
        "| file | bugs | behaviour-preserving edits |", "|---|---|---|"]
for f in sorted(tot):
    out.append("| %s | %d | %d |" % (f, tot[f][0], tot[f][1]))
out.append("| total | %d | %d |" % (sum(t[0] for t in tot.values()), sum(t[1] for t in tot.values())))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out))
