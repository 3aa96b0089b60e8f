"""Interprocedural locksets: for every function the set of lock contexts it is entered with, and at every node the locks held.
A lock is the mutex field or global it is declared as ("L" exclusive, "S" shared). Functions are analysed one by one; contexts
travel along the call graph (virtual calls to every overrider), lambdas run in the context of their call or, when they are
given to a thread or stored, in the empty one. A function that returns holding or having released a lock passes that effect on
to its callers."""
from .lib import *

ASYNC = re.compile(r"^std::(thread|jthread|async|packaged_task|function)\b")


def bare(q):
    """A qualified name without template arguments."""
    if "<" not in q:
        return q
    out, d = [], 0
    for c in q:
        if c == "<":
            d += 1
        elif c == ">" and d:
            d -= 1
        elif not d:
            out.append(c)
    return "".join(out)


COMMIT, WRITE = "SQLite::SharedData::commitLock", "SQLite::SharedData::writeLock"


class Locks:
    def __init__(self, ctx, roots=(), guarded=()):
        self.ctx, self.p = ctx, ctx.p
        self.guarded = set(guarded)
        p = self.p
        self.graphs = {}
        self.info = {}         # fid -> list of (node, set of token sets)
        self.effects = {}      # fid -> set of (gained frozenset, released frozenset)
        self.relevant = p.reaches(self._touches)
        self.scope = p.reaches(lambda f: self._touches(f) or self._accesses(f)) if self.guarded else set(self.relevant)
        self._summaries()
        self._contexts(roots)

    def _touches(self, f):
        for e in fn_exprs(f):
            if e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] in ("lock", "unlock", "try_lock", "lock_shared", "unlock_shared", "try_lock_for", "try_lock_shared", "try_lock_until"):
                return True
        for st in stmts(f["body"]):
            if st.get("k") == "decl" and any(is_raii_class(v.get("c")) for v in st["v"]):
                return True
        return False

    def _accesses(self, f):
        return any(e.get("k") in ("mem", "var") and bare(e.get("q") or "") in self.guarded for e in fn_exprs(f, True)) or any(i.get("q") in self.guarded for i in f.get("inits", ()))

    def norm(self, fld, g, n):
        if fld and "::" not in fld or fld and fld.startswith("std::pair"):
            c = n.fr.fn.get("c")
            if c == "ConflictLockGuard":
                return "ConflictLockGuard::mutexes"
        return fld

    # -- one function
    def graph(self, fid):
        if fid not in self.graphs:
            f = self.p.fns[fid]
            self.graphs[fid] = Graph(self.p, f, lambda *a: False)
            self.ctx.graphs += 1
            self.ctx.nodes += len(self.graphs[fid].nodes)
            self.ctx.fns.add(f["q"])
        return self.graphs[fid]

    def node_targets(self, n):
        if n.k in ("call", "icall"):
            t = list(self.p.targets(n.e))
            if not t and n.x is not None and isinstance(n.x, dict) and n.x.get("id") in self.p.fns:
                t = [n.x["id"]]
            return t
        if n.k == "log" and isinstance(n.e, dict):
            # the arguments of a log line are evaluated too
            t = []
            for e in own_exprs(n.e):
                for y in walk(e):
                    if y.get("k") == "call":
                        t += [c for c in self.p.targets(y) if c not in t]
            return t
        if n.k == "dtor" and n.e.get("d") in self.p.fns:
            return [n.e["d"]]
        if n.k == "delete" and isinstance(n.e, dict) and n.e.get("c"):
            d = "%s::~%s()" % (n.e["c"], n.e["c"].split("::")[-1])
            return [d] if d in self.p.fns else []
        return []

    def analyse(self, fid):
        """Token sets at every node of a function entered with nothing held."""
        g = self.graph(fid)
        at = defaultdict(set)
        L = self

        def ev(n, t, facts, x):
            at[n.i].add(t)
            t = HELD(n, t, g)
            t = frozenset((y[0], L.norm(y[1], g, n)) + y[2:] for y in t)
            out = [t]
            for c in L.node_targets(n):
                eff = L.effect_at(n, c)
                if not eff:
                    continue
                res = []
                for tt in out:
                    for gain, rel in eff:
                        u = frozenset(y for y in tt if not (y[0] in "LS" and y[1] in rel and y[3] is None))
                        # a release the caller's own tokens do not cover is passed on
                        for r in rel:
                            if (L.p.fns[c].get("c") != "ConflictLockGuard" or L.p.fns[fid].get("c") == "ConflictLockGuard") and not any(y[0] in "LS" and y[1] == r for y in tt):
                                u = u | {("R", r, "", None)}
                        u = u | {(k, fl, "effect", None) for k, fl in gain}
                        if u not in res:
                            res.append(u)
                out = res
            if n.k == "call":
                for op, fld, path, sh, rp in lock_ops(n, g):
                    fld = L.norm(fld, g, n)
                    if op == "release" and not any(y[0] in "LS" and y[1] == fld for y in t) and not any(y[0] in "LS" and y[1] == fld for y in L_before(n, at)):
                        out = [u | {("R", fld, "", None)} for u in out]
                    if op == "release":
                        out = [frozenset(y for y in u if not (y[0] in "LS" and y[1] == fld and y[3] is None)) for u in out]
                    if op == "acquire":
                        out = [frozenset(y for y in u if not (y[0] == "R" and y[1] == fld)) for u in out]
            return out if len(out) != 1 else out[0]

        def L_before(n, at):
            return [y for s in at[n.i] for y in s]

        def edge(n, lab, m, t, facts, x):
            t = owns_edge(n, lab, t, g)
            if t is STOP:
                return STOP
            e = strip(n.e) if n.k == "branch" and n.e else None
            if isinstance(e, dict) and e.get("k") == "call" and e.get("q", "").split("::")[-1].startswith("try_lock") and "obj" in e and lab == "T":
                o = strip(e["obj"])
                if "mutex" in e["q"].rsplit("::", 1)[0]:
                    fld = L.norm(mutex_field_in(o, n.fr, g), g, n)
                    t = frozenset(y for y in t if not (y[0] == "R" and y[1] == fld)) | {("S" if "shared" in e["q"].split("::")[-1] else "L", fld, g.canon(o, n.fr), None)}
            return t
        def edge2(n, lab, m, t, facts, x):
            # processCommand leaves its transaction open only when it asks for a commit, peekCommand only when it asks for processing
            at2 = n.x[0] if n.k == "branch" and n.x else None
            if at2 and at2[0] == "eq" and at2[2].endswith(("::NEEDS_COMMIT", "::SHOULD_PROCESS")) and lab in ("T", "F") and (lab == "T") != n.x[1]:
                t = frozenset(y for y in t if y != ("L", COMMIT, "effect", None))
            return edge(n, lab, m, t, facts, x)
        x = Explorer(g, Flow(ev, edges=edge2, only=self.flags(g)))
        x.run()
        self.ctx.states += x.states
        return at

    FLAG = re.compile(r"::(NEEDS_COMMIT|SHOULD_PROCESS)$")

    def flags(self, g):
        """Local booleans that record the outcome of a question about locks: the only facts worth keeping."""
        return paths_re(flags_of(g, lambda e, fr: e.get("k") == "enum" and self.FLAG.search(e.get("q", "")) or e.get("k") == "call" and re.search(r"::(try_lock\w*|owns_lock|operator bool|owns\w*)$", e.get("q", ""))))

    def _summaries(self):
        """Net lock effects: those of the SQLite handle are the contracts C01 and C06 check, the conflict lock guard's are computed."""
        C, W = COMMIT, WRITE
        none = (frozenset(), frozenset())
        rel = (frozenset(), frozenset({C}))
        gain = (frozenset({("L", C)}), frozenset())
        table = {"SQLite::rollback": {rel}, "SQLiteCore::rollback": {rel}, "SQLiteCore::commit": {rel}, "SQLite::~SQLite": {rel},
                 "SQLiteScopedHandle::~SQLiteScopedHandle": {rel}, "SQLite::commit": {none, rel}, "SQLite::prepare": {none, gain},
                 "SQLite::beginTransaction": {none, gain}, "BedrockCore::processCommand": {none, gain}, "BedrockCore::peekCommand": {none, gain},
                 "SQLiteNode::_handlePrepareTransaction": {none, gain}, "SQLiteNode::_handleCommitTransaction": {none, rel},
                 "SQLite::exclusiveLockDB": {(frozenset({("L", C), ("L", W)}), frozenset())},
                 "SQLite::exclusiveUnlockDB": {(frozenset(), frozenset({C, W}))}}
        for f in self.p.fns.values():
            if f["q"] in table:
                self.effects[f["id"]] = table[f["q"]]
        ms = [f for f in self.p.methods_of("ConflictLockGuard")]
        for f in ms + ms:
            if f["id"] in self.relevant:
                at = self.analyse(f["id"])
                g = self.graph(f["id"])
                eff = set()
                for t in at.get(g.exit.i, ()):
                    eff.add((frozenset((y[0], y[1]) for y in t if y[0] in "LS" and y[3] is None), frozenset(y[1] for y in t if y[0] == "R")))
                rels = {x for x in eff if x[1]}
                if rels:
                    # the guard gives back what it took, if it took anything
                    self.effects[f["id"]] = rels
                elif eff and eff != {none}:
                    self.effects[f["id"]] = eff

    def effect_at(self, n, c):
        """Effect of a call; a shared transaction takes no lock."""
        eff = self.effects.get(c)
        if eff and self.p.fns[c]["q"] == "SQLite::beginTransaction":
            a = [x for x in n.e.get("a", ()) if isinstance(x, dict)]
            k = const_of(a[0]) if a else None
            if k and k.endswith("SHARED"):
                return None
        return eff

    # -- contexts
    def _contexts(self, roots):
        p = self.p
        self.ctxs = defaultdict(set)
        self.at = {}
        E = frozenset()
        callers = p.callers()
        work = []
        for fid in sorted(self.scope):
            f = p.fns[fid]
            if self._touches(f) or fid in self.effects or any(c in self.effects for c in p.callees(fid)):
                self.at[fid] = self.analyse(fid)
            else:
                self.at[fid] = None      # nothing is locked here: every node has the entry context
        # call edges with the locks of the function itself
        self.edges = defaultdict(set)       # caller -> {(callee, frozenset locks, node index)}
        self.async_ = set()
        for fid in sorted(self.scope):
            at = self.at[fid]
            f = p.fns[fid]
            if at is None:
                for c in p.callees(fid):
                    if not (p.fns[c].get("lambda") and self.is_async(f, c)):
                        self.edges[fid].add((c, E, E, -1))
                    else:
                        self.async_.add(c)
                continue
            g = self.graph(fid)
            called = set()
            for n in g.nodes:
                for c in self.node_targets(n):
                    called.add(c)
                    for t in at.get(n.i, ()):
                        self.edges[fid].add((c,) + self.split(t) + (n.i,))
            for n in g.nodes:
                # lambdas given to a call that runs them, function references
                if n.k in ("call", "icall") and isinstance(n.e, dict):
                    for a in n.e.get("a", ()):
                        la = g.lambda_of(a, n.fr)
                        if la is not None and la[0]["f"] in p.fns and not ASYNC.match(n.q):
                            c = la[0]["f"]
                            called.add(c)
                            for t in at.get(n.i, ()):
                                self.edges[fid].add((c,) + self.split(t) + (n.i,))
            for c in p.callees(fid):
                if c not in called:
                    # a lambda or function that is stored, or given to a thread
                    self.async_.add(c)
        for fid in self.scope:
            f = p.fns[fid]
            if fid in self.async_ or not [c for c in callers.get(fid, ()) if c != fid] or f["q"] in roots or any(re.match(r, f["q"]) for r in roots):
                work.append((fid, E))
        # callers outside the scope hold nothing (they do not touch locks)
        for fid in self.scope:
            if any(c not in self.scope for c in callers.get(fid, ())):
                work.append((fid, E))
        while work:
            fid, c = work.pop()
            if c in self.ctxs[fid]:
                continue
            if len(self.ctxs[fid]) > 200:
                raise Broken("too many lock contexts for %s" % fid)
            f = p.fns[fid]
            if f.get("isctor") or f.get("isdtor"):
                # nobody else has the object yet, or any more
                c = frozenset(y for y in c if not y[0].startswith("alone ")) | {("alone " + f["c"], "L")}
                if c in self.ctxs[fid]:
                    continue
            elif not f.get("lambda"):
                # the object under construction or destruction is this class's only in calls on it
                c = frozenset(y for y in c if not y[0].startswith("alone ") or y[0] == "alone " + (f.get("c") or ""))
                if c in self.ctxs[fid]:
                    continue
            self.ctxs[fid].add(c)
            for callee, add, rel, ni in self.edges[fid]:
                if callee in self.scope:
                    work.append((callee, frozenset(y for y in c if y[0] not in rel) | add))

    def split(self, t):
        return frozenset((y[1], y[0]) for y in t if y[0] in "LS"), frozenset(y[1] for y in t if y[0] == "R")

    def is_async(self, f, lam):
        for e in fn_exprs(f):
            if e.get("k") in ("ctor", "call") and ASYNC.match(e.get("q", "")):
                if any(x.get("k") == "lambda" and x["f"] == lam for a in e.get("a", ()) for x in walk(a)):
                    return True
        return False

    # -- queries
    def locksets(self, fid, node=None):
        """Every lock set that may be held at a node (or anywhere in a lock-free function)."""
        out = set()
        at = self.at.get(fid)
        for c in self.ctxs.get(fid, {frozenset()}) or {frozenset()}:
            if at is None or node is None:
                out.add(c)
            else:
                for t in at.get(node.i, ()):
                    add, rel = self.split(t)
                    out.add(frozenset(y for y in c if y[0] not in rel) | add)
        return out

    def order(self):
        """Edges held -> acquired (blocking acquisitions): {(a, b): (kinds, where, function)}."""
        out = {}
        for fid in sorted(self.scope):
            at = self.at.get(fid)
            if at is None:
                continue
            g = self.graph(fid)
            for n in g.nodes:
                for op, fld, path, sh, rp in lock_ops(n, g):
                    if op == "raii-lock":
                        for t in at.get(n.i, ()):
                            for y in t:
                                if y[0] == "D" and y[3] == rp:
                                    fld = y[1]
                    elif op not in ("acquire", "raii-acquire"):
                        continue
                    fld = self.norm(fld, g, n)
                    for ls in self.locksets(fid, n):
                        for h, k in ls:
                            if h.startswith("alone "):
                                continue
                            out.setdefault((h, fld), []).append((k, "S" if sh else "L", n.where(), self.p.outer(self.p.fns[fid])["q"], path))
        return out
