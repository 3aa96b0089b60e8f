"""Check context: collects obligations and violations, writes evidence, applies the known-findings file."""
import json, os, sys, time, importlib, traceback, hashlib
from .facts import Broken, VERIF
from . import core

KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = core.Prog()
        core.Explorer.ENUMS = {q + "::" + x["n"]: int(x["v"]) for q, d in self.p.enums.items() for x in d["e"]}
        for q, d in self.p.enums.items():       # unscoped enumerators are also named without their enumeration
            for x in d["e"]:
                core.Explorer.ENUMS.setdefault(q.rpartition("::")[0] + "::" + x["n"] if "::" in q else x["n"], int(x["v"]))
        self.t0 = time.time()
        self.obl = {}          # rule -> [count, samples]
        self.viol = {}         # key -> (rule, where, text, trace)
        self.fns = set()
        self.graphs = 0
        self.nodes = 0
        self.states = 0
        self.notes = []
        self.undecided = []
        self.minimum = {}

    # -- obligations
    def ok(self, rule, inst, n=1):
        """One instance of a rule was examined."""
        r = self.obl.setdefault(rule, [0, []])
        r[0] += n
        if len(r[1]) < 6 and inst not in r[1]:
            r[1].append(inst)

    def need(self, rule, n=1):
        """The rule must have matched at least n instances, or the analysis is broken."""
        self.minimum[rule] = n

    def require(self, cond, msg):
        if not cond:
            raise Broken(msg)

    def bad(self, rule, fn, detail, where, text, trace=None):
        """Report a violation. The key (rule, function, detail) has no line numbers so that it is stable."""
        key = "%s|%s|%s" % (rule, fn, detail)
        if key not in self.viol or len(trace or ()) < len(self.viol[key][3] or ()):
            self.viol[key] = (rule, where, text, trace or [])

    # -- analyses
    def graph(self, fn, inline=None, **kw):
        if isinstance(fn, str):
            fn = self.p.fn(fn)
        g = core.Graph(self.p, fn, inline, **kw)
        self.graphs += 1
        self.nodes += len(g.nodes)
        self.fns |= {self.p.fns[i]["q"] for i in g.inlined if i in self.p.fns}
        return g

    def explore(self, g, rule, cap=400000, facts=frozenset()):
        x = core.Explorer(g, rule, cap)
        x.run(facts)
        self.states += x.states
        return x


def run_check(pid, tier, seed):
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    from .rules import REGISTRY
    if pid not in REGISTRY:
        print("unknown property", pid)
        return 2
    ctx = None
    try:
        ctx = Ctx(pid, tier, seed)
        try:
            REGISTRY[pid](ctx)
        except Broken as e:
            if not ctx.viol and not ctx.obl:
                raise
            ctx.undecided.append("analysis stopped early: %s" % e)
        if not ctx.viol:
            for r, n in ctx.minimum.items():
                got = ctx.obl.get(r, [0])[0]
                if got < n:
                    ctx.undecided.append("rule '%s' matched %d instances, expected at least %d" % (r, got, n))
            if not any(v[0] for v in ctx.obl.values()):
                raise Broken("no obligations examined; " + "; ".join(ctx.undecided))
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 3
    known = {}
    try:
        for k in json.load(open(KNOWN))["findings"]:
            if k["property"] == pid and k.get("status") == "known":
                known[k["key"]] = k
    except FileNotFoundError:
        pass
    new = {k: v for k, v in ctx.viol.items() if k not in known}
    old = {k: v for k, v in ctx.viol.items() if k in known}
    obligations = sum(v[0] for v in ctx.obl.values())
    cov = {
        "explanation": "Static analysis of /repo's current sources: %d translation units, %d functions in the resolved program; "
                       "every obligation below is one instance (function, call site, path set, table entry) decided on this run." % (len(ctx.p.units), len(ctx.p.fns)),
        "obligations": obligations,
        "discharged": obligations - len(ctx.viol) if obligations >= len(ctx.viol) else 0,
        "rules": {r: {"instances": v[0], "samples": v[1]} for r, v in sorted(ctx.obl.items())},
        "functions_analysed": sorted(ctx.fns)[:200],
        "graphs": ctx.graphs, "graph_nodes": ctx.nodes, "path_states": ctx.states,
        "samples": [s for v in ctx.obl.values() for s in v[1][:2]][:12],
        "violations": [{"rule": v[0], "where": v[1], "what": v[2], "path": v[3], "key": k} for k, v in ctx.viol.items()],
    }
    if ctx.undecided:
        cov["undecided"] = ctx.undecided
    if ctx.notes:
        cov["notes"] = ctx.notes
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
               "assumptions": ["clang 18 resolves the program as the build's flags do", "standard library and SQLite calls do not throw unless listed in sa/core.py",
                               "allocation failure and signals are not modelled as exceptions"],
               "wall_s": round(time.time() - t0, 2), "violations": len(new)}, open(evf, "w"), indent=1)
    for k, v in old.items():
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k]["what"], v[1]))
    print("%s: %d obligations over %d functions, %d graphs, %d nodes, %d states in %.1fs" % (pid, obligations, len(ctx.fns), ctx.graphs, ctx.nodes, ctx.states, time.time() - t0))
    for r, v in sorted(ctx.obl.items()):
        print("  %-44s %4d  e.g. %s" % (r, v[0], "; ".join(str(x) for x in v[1][:2])))
    for u in ctx.undecided:
        print("UNDECIDED property=%s %s" % (pid, u))
    if new:
        rp = os.path.join(ev, "replay-%s.txt" % pid)
        with open(rp, "w") as f:
            for k, v in new.items():
                f.write("rule: %s\nwhere: %s\nwhat: %s\nkey: %s\npath:\n  %s\n\n" % (v[0], v[1], v[2], k, "\n  ".join(v[3])))
        for k, v in new.items():
            print("  %s: [%s] %s" % (v[1], v[0], v[2]))
            if v[3]:
                print("     path: " + " -> ".join(v[3]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
