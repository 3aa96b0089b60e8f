"""More properties of the SQLite handle: write lock (C06), commit gate (C07), after-commit work (C08)."""
from . import prop
from ..lib import *
from .sqlite import (same_class, start_facts, squery_arg, up_roots, try_lock_branch, COMMIT_LOCK, WRITE_LOCK, FLAG, INSIDE, ATOM_FLAG, ATOM_INSIDE)

HARMLESS = ("SELECT", "PRAGMA", "BEGIN", "ROLLBACK", "EXPLAIN", "COMMIT", "END")
CORE_FILES = ("sqlitecluster/SQLite.cpp", "sqlitecluster/SQLite.h")


# Composing and sending a message whose method line is a constant of this program cannot fail validation.
COMPOSES = {"SData::SData", "SData::serialize", "SQLiteNode::_sendToAllPeers", "SQLiteNode::_sendToPeer", "SQLitePeer::sendMessage", "SQLiteNode::_addPeerHeaders"}


def user_sql(n, g):
    """The statement is the caller's (a parameter of the public method) or the rewritten form of it."""
    o, fr = origin(squery_arg(n, 1), n.fr, g)
    if isinstance(o, dict) and o.get("k") == "var" and o.get("vk") == "param":
        return True
    return isinstance(o, dict) and o.get("k") == "mem"


def modifies(n, g):
    """The statement may change the database."""
    s = squery_sql(g, n)
    if s is not None and s.strip():
        return s.strip().split()[0].upper().rstrip(";") not in HARMLESS
    return user_sql(n, g)


def commit_held(t, facts):
    return known(facts, ATOM_FLAG) is True or holds(t, COMMIT_LOCK)


@prop("C06")
def write_lock(ctx):
    p = ctx.p
    runs = p.reaches(lambda f: any(True for _ in calls_in(f, "SQuery")))
    methods = [f for f in p.methods_of("SQLite") if f.get("acc") == 0 and not f.get("const") and not f.get("isctor") and f["id"] in runs]
    ctx.require(len(methods) >= 8, "only %d public methods of the handle run SQL" % len(methods))
    touch = p.reaches(lambda f: any(e.get("k") == "mem" and e["q"] in (WRITE_LOCK, COMMIT_LOCK) for e in fn_exprs(f)))
    methods += [f for f in p.methods_of("SQLite") if f.get("acc") == 0 and f["id"] in touch and f not in methods]
    ROLES = {"SQLite::exclusiveLockDB": "lock", "SQLite::exclusiveUnlockDB": "unlock"}
    for f in sorted(methods, key=lambda f: f["l"]):
        g = ctx.graph(f, same_class)
        role = ROLES.get(f["q"])

        def events(n, t, facts, x):
            before = t
            for op, fld, path, sh, rp in lock_ops(n, x.g):
                if fld == COMMIT_LOCK and op in ("acquire", "raii-acquire", "raii-lock") and holds(t, WRITE_LOCK, True):
                    ctx.bad("lock-order", f["q"], "commit-after-write", n.where(), "%s waits for the commit lock while holding the write lock, the opposite order of a writer inside an exclusive transaction: deadlock" % f["q"], x.trace())
                if fld == COMMIT_LOCK and op == "try" and holds(t, WRITE_LOCK, True) and "try_lock_" in n.q:
                    ctx.bad("lock-order", f["q"], "commit-after-write", n.where(), "%s waits for the commit lock while holding the write lock" % f["q"], x.trace())
                if fld == WRITE_LOCK:
                    ctx.ok("write lock is taken after, never before, the commit lock", n.where())
                    if op in ("acquire", "raii-acquire") and holds(t, WRITE_LOCK, True):
                        ctx.bad("lock-order", f["q"], "write-twice", n.where(), "%s takes the write lock twice: it blocks for ever once a writer waits between" % f["q"], x.trace())
                    if op in ("acquire", "raii-acquire") and not sh and role != "lock":
                        ctx.ok("ordinary writers share the write lock", n.where())
                    if op == "release" and role != "unlock" and not holds(t, WRITE_LOCK, True):
                        ctx.bad("write-lock-pairing", f["q"], "release-not-held", n.where(), "%s releases a write lock it does not hold" % f["q"], x.trace())
            t = HELD(n, t, x.g)
            if n.k == "call" and n.q == "SQuery" and modifies(n, x.g):
                ctx.ok("every statement that can change the database runs under the write or commit lock", n.where())
                mine = squery_sql(x.g, n)
                if not (holds(t, WRITE_LOCK, True) or commit_held(t, facts)):
                    ctx.bad("write-unlocked", f["q"], (mine or "user statement").split(" ")[0], n.where(), "a statement that can change the database (%s) runs without the write lock, so BlockWrites does not stop it" % (mine or "the caller's"), x.trace())
            if n.k == "call" and n.q == "SQuery" and (squery_sql(x.g, n) or "").upper().startswith("COMMIT"):
                ctx.ok("every statement that can change the database runs under the write or commit lock", n.where())
                if not (holds(t, WRITE_LOCK, True) or commit_held(t, facts) or known(facts, ("eq", "this._uncommittedHash.size()", "c:0")) is False):
                    ctx.bad("write-unlocked", f["q"], "COMMIT", n.where(), "a COMMIT runs with neither the write lock nor the commit lock", x.trace())
            if n.k in ("exit", "excexit"):
                w = [y for y in t if y[0] in "LS" and y[1] == WRITE_LOCK]
                c = [y for y in t if y[0] == "L" and y[1] == COMMIT_LOCK]
                ctx.ok("no method leaves the write lock held", f["q"])
                if role == "lock" and n.k == "exit":
                    if not any(y[0] == "L" for y in w) or not c:
                        ctx.bad("exclusive-lock", f["q"], "incomplete", "%s:%d" % (f["file"], f["l"]), "exclusiveLockDB returns without holding both locks exclusively", x.trace())
                    if any(y[3] for y in w + c):
                        ctx.bad("exclusive-lock", f["q"], "scoped", "%s:%d" % (f["file"], f["l"]), "exclusiveLockDB takes a lock that ends when it returns", x.trace())
                elif role == "unlock" and n.k == "exit":
                    if w or c:
                        ctx.bad("exclusive-lock", f["q"], "left-held", "%s:%d" % (f["file"], f["l"]), "exclusiveUnlockDB leaves a lock held", x.trace())
                elif role is None and w:
                    ctx.bad("write-lock-pairing", f["q"], "left-held", "%s:%d" % (f["file"], f["l"]), "%s returns with the write lock held" % f["q"], x.trace())
            return t

        def edge(n, lab, m, t, facts, x):
            if n.k == "branch" and try_lock_branch(n) and lab == "T":
                e = strip(n.e)
                fld = mutex_field_in(e["obj"], n.fr, x.g)
                if fld in (COMMIT_LOCK, WRITE_LOCK):
                    t = t | {("L", fld, x.g.canon(e["obj"], n.fr), None)}
            return t
        starts = [(False, False), (False, True), (True, True)] if not role else [(False, False)]
        for flag, inside in starts:
            st = frozenset()
            if role == "unlock":
                st = frozenset({("L", COMMIT_LOCK, "this._sharedData.commitLock", None), ("L", WRITE_LOCK, "this._sharedData.writeLock", None)})
            ctx.explore(g, Flow(events, r"_mutexLocked$|_insideTransaction$|_uncommittedHash.size", start=st, edges=edge), facts=start_facts(flag, inside))
    # exclusive holders outside the class: released on every way out, and nothing that needs the locks in between
    needs = p.reaches(lambda f: f.get("c") in ("SQLite", "SQLite::SharedData") and f["q"] not in ROLES and any(e.get("k") == "mem" and e["q"] in (WRITE_LOCK, COMMIT_LOCK) for e in fn_exprs(f)))
    users = [f for f in p.fns.values() if f["file"] not in CORE_FILES and any(calls_in(f, "SQLite::exclusiveLockDB"))]
    ctx.require(len(users) >= 2, "callers of exclusiveLockDB not found")
    for f in users:
        def inl(h, e, fr, own=p.outer(f)):
            return bool(h.get("lambda")) or h["id"] in lockers
        lockers = p.reaches(lambda h: any(calls_in(h, ("SQLite::exclusiveLockDB", "SQLite::exclusiveUnlockDB"))))
        g = ctx.graph(f, lambda h, e, fr: h["id"] in lockers and h.get("c") != "SQLite")
        nm = p.outer(f)["q"]

        def ev(n, t, facts, x):
            if n.k in ("call", "icall") and n.q == "SQLite::exclusiveLockDB":
                t = t | {"held"}
            elif n.k in ("call", "icall") and n.q == "SQLite::exclusiveUnlockDB":
                if "held" not in t:
                    ctx.bad("exclusive-pairing", nm, "unlock", n.where(), "%s releases the exclusive database lock without holding it" % nm, x.trace())
                t = t - {"held"}
            elif n.k == "call" and "held" in t and any(c in needs for c in p.targets(n.e)) and not n.q.startswith("std::"):
                ctx.bad("exclusive-pairing", nm, "self-deadlock " + n.q, n.where(), "%s calls %s, which needs the locks it holds exclusively" % (nm, n.q), x.trace())
            if n.k in ("exit", "excexit"):
                ctx.ok("exclusive lock released on every way out", "%s %s" % (nm, n.k))
                if "held" in t:
                    ctx.bad("exclusive-pairing", nm, "leak-" + n.k, "%s:%d" % (f["file"], f["l"]), "%s can end with the database exclusively locked%s" % (nm, " (exception)" if n.k == "excexit" else ""), x.trace())
            return t
        def xe(n, lab, m, t, facts, x):
            if lab == "exc" and n.q in COMPOSES:
                return STOP
            return t - {"held"} if lab == "exc" and n.q == "SQLite::exclusiveLockDB" else t
        ctx.explore(g, Flow(ev, edges=xe))
    # BlockWrites: success is reported only once the lock is really held, and only while the thread that holds it lives
    quiesce(ctx)
    ctx.need("every statement that can change the database runs under the write or commit lock", 8)
    ctx.need("exclusive lock released on every way out", 2)


def quiesce(ctx):
    p = ctx.p
    lam = [f for f in p.fns.values() if f.get("lambda") and p.outer(f)["q"].startswith("BedrockServer::") and any(calls_in(f, "SQLite::exclusiveLockDB"))]
    ctx.require(lam, "the thread that blocks writes was not found")
    for f in lam:
        own = p.outer(f)
        g = ctx.graph(f, lambda *z: False)
        # variables this thread tells its creator through: assigned in the thread, read in a loop condition of the creator
        og = ctx.graph(own, lambda *z: False)
        told = set()
        for n in g.nodes:
            for b in ([n.e] if n.k in ("call", "assign") and isinstance(n.e, dict) else []):
                v = strip(b.get("obj") if "obj" in b else b.get("x")) if isinstance(b, dict) else None
                if isinstance(v, dict) and v.get("k") == "var" and v.get("id") and "atomic" in v.get("t", ""):
                    told.add((v["id"], v["n"]))
        waits = set()
        for s in stmts(own["body"]):
            if s.get("k") in ("while", "do", "for") and isinstance(s.get("c"), dict):
                for y in walk(s["c"]):
                    if y.get("k") == "var" and (y.get("id"), y.get("n")) in told:
                        waits.add(y["id"])
        for vid in waits:
            def ev(n, t, facts, x):
                if n.k in ("call", "icall") and n.q == "SQLite::exclusiveLockDB":
                    t = t | {"held"}
                if n.k in ("call", "icall") and n.q == "SQLite::exclusiveUnlockDB":
                    t = t - {"held"}
                if n.k in ("call", "assign") and isinstance(n.e, dict):
                    v = strip(n.e.get("obj") if "obj" in n.e else n.e.get("x"))
                    isset = n.k == "assign" or n.e.get("op") == "=" or n.q.split("::")[-1] == "store"
                    if isinstance(v, dict) and v.get("id") == vid and isset:
                        ctx.ok("BlockWrites reports success only once the lock is held", n.where())
                        if "held" not in t:
                            ctx.bad("quiesce", own["q"], "early", n.where(), "the thread blocking writes reports the database locked before it holds the lock", x.trace())
                        t = t | {"told"}
                if n.k == "exit" and "told" not in t:
                    ctx.bad("quiesce", own["q"], "silent", "%s:%d" % (f["file"], f["l"]), "the thread blocking writes can end without ever reporting, while BlockWrites waits for it for ever", x.trace())
                return t
            ctx.explore(g, Flow(ev))
        ctx.require(waits, "how BlockWrites waits for its thread was not recognised")

        def rev(n, t, facts, x):
            if n.k in ("assign", "call", "icall") and isinstance(n.e, dict):
                cs = [const_of(a) for a in ([n.e.get("y")] if n.k == "assign" else n.e.get("a", [])) if isinstance(a, dict)]
                if any(c and c.startswith('c:"200 Blocked') for c in cs):
                    ctx.ok("BlockWrites reports success only once the lock is held", n.where())
                    okd = any(known(facts, a) is True for a in [k for k, v in facts] if a[0] == "t" and any(vv in a[1] for vv in names)) or \
                        any(k[0] == "eq" and any(vv in k[1] for vv in names) and ((k[2] in ("c:false", "c:0") and v is False) or (k[2] in ("c:true", "c:1") and v is True)) for k, v in facts)
                    if not okd:
                        ctx.bad("quiesce", own["q"], "success-early", n.where(), "BlockWrites can report success although its thread has not reported the lock held", x.trace())
            return t
        names = {n + "#" for i, n in told if i in waits}
        ctx.explore(og, Flow(rev, "|".join(re.escape(n) for n in names), only="|".join(re.escape(n) for n in names)))


GATE = "SQLite::SharedData::_commitEnabled"


@prop("C07")
def commit_gate(ctx):
    p = ctx.p
    f = p.fn("SQLite::commit")
    g = ctx.graph(f, same_class)
    w0 = "%s:%d" % (f["file"], f["l"])
    enums = [e for e in p.globals if e.endswith("COMMIT_DISABLED")]

    def gate(facts):
        return known(facts, ("t", "this._sharedData._commitEnabled"))

    def ev(n, t, facts, x):
        if n.k == "call" and n.q == "SQuery" and (squery_sql(x.g, n) or "").upper().startswith(("COMMIT", "END")):
            ctx.ok("COMMIT runs only with the gate open, inside a prepared transaction", n.where())
            if gate(facts) is not True:
                ctx.bad("gate", f["q"], "untested", n.where(), "COMMIT can run without the commit gate having been found open", x.trace())
            if known(facts, ATOM_INSIDE) is not True:
                ctx.bad("gate", f["q"], "outside", n.where(), "COMMIT can run outside a transaction", x.trace())
            if known(facts, ("eq", "this._uncommittedHash.size()", "c:0")) is not False:
                ctx.bad("gate", f["q"], "unprepared", n.where(), "COMMIT can run for a transaction that was never prepared (no hash, no journal row)", x.trace())
            t = t | {"ran", ("call", x.g.canon(n.e, n.fr))}
        if n.k == "assign" or (n.k in ("call", "icall") and n.q in ("SQuery", "SQLite::SharedData::incrementCommit", "SQLite::rollback")):
            if n.q in ("SQLite::SharedData::incrementCommit",):
                okc = any(k[0] == "eq" and k[2] == "c:0" and v is True and '"COMMIT"' in k[1] for k, v in facts)
                if not okc:
                    ctx.bad("gate", f["q"], "count", n.where(), "the commit count advances although COMMIT is not known to have succeeded", x.trace())
            if gate(facts) is False:
                t = t | {"acted"}
        if n.k == "exit":
            ret = [k[2] for k, v in facts if k[0] == "eq" and k[1] == "ret0" and v is True]
            if gate(facts) is False:
                ctx.ok("a closed gate refuses the commit and changes nothing", "path to exit")
                if "ran" in t or "acted" in t:
                    ctx.bad("gate", f["q"], "closed-acts", w0, "with the commit gate closed, commit still acts on the transaction", x.trace())
                if "c:0" in ret or (not ret and False):
                    ctx.bad("gate", f["q"], "closed-ok", w0, "with the commit gate closed, commit reports success", x.trace())
            elif "ran" not in t:
                ctx.bad("gate", f["q"], "not-run", w0, "commit can return without running COMMIT although the gate is open", x.trace())
            else:
                ctx.ok("commit returns COMMIT's own result", "path to exit")
                same = any(k == ("val", "ret0") and '"COMMIT"' in str(v) for k, v in facts) or \
                    any(k[0] == "eq" and k[1] == "ret0" and k[2] == "c:0" and known(facts, ("eq", c[1], "c:0")) == v for k, v in facts for c in t if isinstance(c, tuple))
                if not same:
                    ctx.bad("gate", f["q"], "result", w0, "commit does not return the result of COMMIT", x.trace())
        return t
    ctx.explore(g, Flow(ev, r"_commitEnabled$|_insideTransaction$|_uncommittedHash.size|\"COMMIT\"|^ret0|^result#0"), facts=start_facts(True, True))
    # only the setter moves the gate, and only while no commit is in progress
    setter = p.fn("SQLite::SharedData::setCommitEnabled")
    sg = ctx.graph(setter, same_class)

    def sev(n, t, facts, x):
        t = HELD(n, t, x.g)
        for fld, path, const, canon in written(n, x.g):
            if fld == GATE:
                ctx.ok("the gate moves only under the commit lock", n.where())
                if not holds(t, COMMIT_LOCK):
                    ctx.bad("gate-writer", setter["q"], "unlocked", n.where(), "the commit gate changes without the commit lock: a commit that has passed the gate may still be running afterwards", x.trace())
                a = n.e.get("a") or [n.e.get("y")]
                if strip(a[0]).get("k") != "var" or strip(a[0]).get("vk") != "param":
                    ctx.bad("gate-writer", setter["q"], "value", n.where(), "the commit gate is not set to the requested value", x.trace())
                t = t | {"set"}
        if n.k == "exit" and "set" not in t:
            same = any(k[0] == "eq" and "_commitEnabled" in k[1] + k[2] and v is True for k, v in facts)
            ctx.ok("the gate moves only under the commit lock", "no change needed")
            if not same:
                ctx.bad("gate-writer", setter["q"], "ignored", "%s:%d" % (setter["file"], setter["l"]), "a request to open or close the commit gate can be ignored", x.trace())
        return t
    ctx.explore(sg, Flow(sev, r"_commitEnabled"))
    for fn in p.fns.values():
        own = p.outer(fn)
        for fld in p.direct_mod(fn):
            if fld == GATE:
                ctx.ok("only the setter moves the gate", own["q"])
                if own["id"] not in {i for i in sg.inlined} and not own.get("isctor"):
                    ctx.bad("gate-writer", own["q"], "write", "%s:%d" % (fn["file"], fn["l"]), "%s moves the commit gate" % own["q"])
    pub = p.fn("SQLite::setCommitEnabled")
    pg = ctx.graph(pub, lambda *z: False)

    def pev(n, t, facts, x):
        if n.k in ("call", "icall") and n.q == setter["q"]:
            a = strip(call_args(n)[0])
            if a.get("k") == "var" and a.get("vk") == "param":
                t = t | {"set"}
        if n.k == "exit":
            ctx.ok("the gate moves only under the commit lock", "handle forwards")
            if "set" not in t:
                ctx.bad("gate-writer", pub["q"], "forward", "%s:%d" % (pub["file"], pub["l"]), "the handle does not pass a gate change on", x.trace())
        return t
    ctx.explore(pg, Flow(pev))
    # nobody else can commit a transaction of the handle
    commits = []
    for fn in p.fns.values():
        if fn["file"].startswith("test"):
            continue
        for e in calls_in(fn, ("SQuery", "SQLite::read", "SQLite::write", "SQLite::writeIdempotent", "SQLite::writeUnmodified", "sqlite3_exec")):
            for a in e.get("a", [])[:2]:
                s = sql_of(a)
                if s is not None and s.strip().upper().startswith(("COMMIT", "END")):
                    commits.append((p.outer(fn)["q"], fn, e))
    for q, fn, e in commits:
        ctx.ok("COMMIT is issued by the handle only", q)
        if not q.startswith("SQLite::"):
            ctx.bad("gate-bypass", q, "COMMIT", "%s:%d" % (fn["file"], e["l"]), "%s commits behind the handle's back" % q)
        elif q not in ("SQLite::commit", "SQLite::writeLocalUnreplicated", "SQLite::initializeJournal") and fn["id"] not in g.inlined:
            pubs = [m["q"] for m in p.methods_of("SQLite") if m.get("acc") == 0 and fn["id"] in p.reach([m["id"]], stop={p.fn("SQLite::commit")["id"]}) and m["q"] not in ("SQLite::writeLocalUnreplicated", "SQLite::SQLite", "SQLite::commit")]
            for m in pubs:
                ctx.bad("gate-bypass", m, "COMMIT", "%s:%d" % (fn["file"], e["l"]), "%s commits without going through the commit gate" % m)
    # a commit's result is never ignored
    n = 0
    for fn in p.fns.values():
        if fn["file"].startswith("test"):
            continue
        for s in stmts(fn["body"]):
            for e in own_exprs(s):
                for y in walk(e):
                    if y.get("k") == "call" and y.get("q") == "SQLite::commit":
                        n += 1
                        ctx.ok("the result of a commit is looked at", "%s:%d" % (fn["file"], y["l"]))
                        if s.get("k") == "expr" and strip(e) is y:
                            ctx.bad("commit-ignored", p.outer(fn)["q"], "result", "%s:%d" % (fn["file"], y["l"]), "%s ignores whether the commit succeeded" % p.outer(fn)["q"])
    ctx.need("COMMIT runs only with the gate open, inside a prepared transaction")
    ctx.need("the result of a commit is looked at", 3)


CALLBACKS = "SQLite::_afterCommitCallbacks"


@prop("C08")
def after_commit(ctx):
    p = ctx.p
    f = p.fn("SQLite::commit")
    g = ctx.graph(f, same_class)
    w0 = "%s:%d" % (f["file"], f["l"])
    pre = next((q for q in f["p"] if "function" in q["t"] and q["t"].endswith("*")), None)
    ctx.require(pre is not None, "SQLite::commit's pre-checkpoint callback parameter not found")
    PRE = pre["n"] + "#0"
    CP = "SQLite::SharedData::checkpointInProgress"

    def loop_head(n):
        if n.k == "rangehead":
            r = n.e.get("range") if isinstance(n.e, dict) and "range" in n.e else n.e
            return isinstance(r, dict) and any(y.get("k") == "mem" and y["q"] == CALLBACKS for y in walk(origin(r, n.fr, g)[0]))
        if n.k == "branch" and n.x:
            return re.search(r"_afterCommitCallbacks\.(size|c?end)\(\)", "|".join(n.x[0][1:])) is not None
        return False

    def is_callback(n):
        if n.k != "call" or "function" not in n.q:
            return False
        if n.e.get("op") != "()" and not n.q.endswith("operator()"):
            return False
        return True

    def which(n):
        o, fr = origin(n.e.get("obj"), n.fr, g)
        c = g.canon(n.e.get("obj"), n.fr)
        if PRE in c:
            return "pre"
        return "cb"

    def committed(facts):
        return any(k[0] == "eq" and k[2] == "c:0" and v is True and '"COMMIT"' in k[1] for k, v in facts)

    def free(t, facts):
        return known(facts, ATOM_FLAG) is False and not holds(t, COMMIT_LOCK) and "released" in t

    def ev(n, t, facts, x):
        for op, fld, path, sh, rp in lock_ops(n, x.g):
            if fld == COMMIT_LOCK and op == "release":
                t = t | {"released"}
            elif fld == COMMIT_LOCK and op in ("acquire", "raii-acquire", "raii-lock"):
                t = t - {"released"}
        if loop_head(n):
            if "pending" in t:
                ctx.bad("callbacks", f["q"], "skipped", n.where(), "an after-commit callback can be skipped", x.trace())
            t = (t - {"pending", "threw"})
        if is_callback(n):
            kind = which(n)
            ctx.ok("callbacks run after a successful COMMIT with the lock free", n.where())
            if not committed(facts):
                ctx.bad("callbacks", f["q"], kind + "-uncommitted", n.where(), "a callback runs although the transaction is not known to be committed", x.trace())
            if "released" not in t or known(facts, ATOM_FLAG) is True:
                ctx.bad("callbacks", f["q"], kind + "-locked", n.where(), "a callback runs while the commit lock is held", x.trace())
            if kind == "cb":
                if "pending" not in t:
                    ctx.bad("callbacks", f["q"], "twice", n.where(), "an after-commit callback can run twice for one commit", x.trace())
                t = t - {"pending"}
            else:
                if "done" not in t:
                    ctx.bad("callbacks", f["q"], "pre-order", n.where(), "the pre-checkpoint callback runs before the after-commit callbacks", x.trace())
                if "pre" in t:
                    ctx.bad("callbacks", f["q"], "pre-twice", n.where(), "the pre-checkpoint callback runs twice", x.trace())
                t = t | {"pre"}
        if n.k == "call" and n.q.split("::")[-1] == "test_and_set" and mutex_field_in(n.e["obj"], n.fr, x.g) == CP:
            t = frozenset(y for y in t if not (isinstance(y, tuple) and y[0] == "tas")) | {("tas", x.g.canon(n.e, n.fr))}
        claim = [y for y in t if isinstance(y, tuple) and y[0] == "tas" and known(facts, ("t", y[1])) is False]
        open_ = [y for y in t if isinstance(y, tuple) and y[0] == "tas" and known(facts, ("t", y[1])) is not True]
        if n.k == "call" and n.q.split("::")[-1] == "clear" and mutex_field_in(n.e["obj"], n.fr, x.g) == CP:
            ctx.ok("one checkpoint at a time, and the mark is always cleared", n.where())
            if not claim:
                ctx.bad("checkpoint", f["q"], "clear", n.where(), "a commit clears the checkpoint mark of another thread's checkpoint", x.trace())
            t = frozenset(y for y in t if not (isinstance(y, tuple) and y[0] == "tas"))
        if n.k == "call" and n.q.startswith("sqlite3_wal_checkpoint"):
            ctx.ok("one checkpoint at a time, and the mark is always cleared", n.where())
            if not claim:
                ctx.bad("checkpoint", f["q"], "unclaimed", n.where(), "a checkpoint can run while another thread's is in progress", x.trace())
            if "released" not in t:
                ctx.bad("checkpoint", f["q"], "locked", n.where(), "the checkpoint runs while the commit lock is held", x.trace())
            if "done" not in t or (known(facts, ("t", PRE)) is not False and "pre" not in t):
                ctx.bad("checkpoint", f["q"], "before-callbacks", n.where(), "the checkpoint delays callbacks that should run before it", x.trace())
            if not committed(facts):
                ctx.bad("checkpoint", f["q"], "uncommitted", n.where(), "a checkpoint runs although nothing was committed", x.trace())
        if n.k in ("exit", "excexit", "abortexit"):
            if n.k != "abortexit" and open_:
                ctx.bad("checkpoint", f["q"], "stuck-" + n.k, w0, "commit can end leaving the checkpoint mark set, so that no checkpoint ever runs again", x.trace())
            if "threw" in t and (n.k != "exit"):
                ctx.bad("callbacks", f["q"], "escapes", w0, "an exception thrown by an after-commit callback is not contained", x.trace())
            if n.k == "exit" and committed(facts):
                ctx.ok("a successful commit runs every callback once", "path to exit")
                if "done" not in t or "pending" in t:
                    ctx.bad("callbacks", f["q"], "missing", w0, "a successful commit can end without having run every after-commit callback", x.trace())
                if known(facts, ("t", PRE)) is not False and "pre" not in t:
                    ctx.bad("callbacks", f["q"], "pre-missing", w0, "a successful commit can end without running the pre-checkpoint callback it was given", x.trace())
                if not any(y == "looked" for y in t):
                    ctx.bad("checkpoint", f["q"], "never", w0, "a successful commit never considers a checkpoint", x.trace())
        if n.k == "call" and n.q.split("::")[-1] == "test_and_set":
            t = t | {"looked"}
        return t

    def edge(n, lab, m, t, facts, x):
        if loop_head(n):
            if lab == "T":
                if "done" in t:
                    ctx.bad("callbacks", f["q"], "twice", n.where(), "the after-commit callbacks can run twice for one commit", x.trace())
                t = (t - {"done"}) | {"pending"}
            elif lab == "F":
                t = t | {"done"}
        if is_callback(n) and lab == "exc" and which(n) == "cb":
            t = t | {"threw"}
        return t
    ctx.explore(g, Flow(ev, r"_mutexLocked$|_insideTransaction$|\"COMMIT\"|^result#0|test_and_set|" + re.escape(PRE), edges=edge), facts=start_facts(True, True))
    # open transaction counter
    CNT = "SQLite::SharedData::openTransactionCount"
    touch = p.reaches(lambda h: CNT in p.direct_mod(h))
    for h in sorted((m for m in p.methods_of("SQLite") if m["id"] in touch and (m.get("acc") == 0) and not m.get("isctor")), key=lambda m: m["l"]):
        hg = ctx.graph(h, same_class)
        for flag, inside in [(False, False), (False, True), (True, True)]:
            def cev(n, t, facts, x, inside=inside, h=h):
                d = 0
                for fld, path, const, canon in written(n, x.g):
                    if fld == CNT and isinstance(n.e, dict):
                        op = n.e.get("op") or n.q.split("::")[-1]
                        d = {"++": 1, "--": -1, "fetch_add": 1, "fetch_sub": -1, "+=": 1, "-=": -1}.get(op, 99)
                t = max(-3, min(3, t + d)) if d != 99 else 9
                if n.k in ("exit", "excexit"):
                    now = known(facts, ATOM_INSIDE)
                    if now is None:
                        return t
                    ctx.ok("the open transaction count follows the handle", "%s %s" % (h["q"], n.k))
                    if t != int(now) - int(inside):
                        ctx.bad("open-count", h["q"], "delta", "%s:%d" % (h["file"], h["l"]), "%s changes the number of open transactions by %s although this handle went from %s to %s" % (h["q"], t, "open" if inside else "closed", "open" if now else "closed"), x.trace())
                return t
            fl = Flow(cev, r"_mutexLocked$|_insideTransaction$|_uncommittedHash.size")
            fl._start = 0
            ctx.explore(hg, fl, facts=start_facts(flag, inside))
    ctx.need("callbacks run after a successful COMMIT with the lock free", 2)
