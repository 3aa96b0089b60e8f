"""Lock discipline: the node's state lock (C10), fields and the mutex that guards them (C40), lock order and self-deadlock (C41)."""
from . import prop
from ..lib import *
from ..locks import Locks, bare

COMMIT_LOCK = "SQLite::SharedData::commitLock"
NODE = "SQLiteNode::"
NODE_ROOTS = (r"SQLiteNode::[a-z]",)      # public methods may be called with nothing held

NODE_GUARDS = {
    NODE + "_stateMutex": [NODE + x for x in ("_haveSeenPeerOnSameVersion", "_haveBeenWAITING", "_port", "_unauthenticatedIncomingSockets", "_lastSentTransactionID", "_blockedCommandPortForBeingBehind",
                                              "_stateChangeCount", "_stateTimeout", "_syncPeer", "_replicateThread")],
    NODE + "_replicateMutex": [NODE + "_replicateQueue"],
}

GUARDS = {
    "BedrockBlockingCommandQueue::IdentifierState::m": ["BedrockBlockingCommandQueue::IdentifierState::" + x for x in ("commands", "blockedUntil")],
    "BedrockBlockingCommandQueue::StateMap::mapMutex": ["BedrockBlockingCommandQueue::StateMap::states"],
    "BedrockCommandQueue::_queueMutex": ["BedrockCommandQueue::_queue", "BedrockCommandQueue::_lookupByTimeout"],
    "BedrockConflictManager::m": ["BedrockConflictManager::_commandInfo"],
    "BedrockPlugin_Cache::LRUMap::_mutex": ["BedrockPlugin_Cache::LRUMap::_lruList", "BedrockPlugin_Cache::LRUMap::_lruMap"],
    "BedrockPlugin_Jobs::_crashedBedrockJobPatternMutex": ["BedrockPlugin_Jobs::_crashedBedrockJobPatterns"],
    "BedrockServer::_futureCommitCommandMutex": ["BedrockServer::_futureCommitCommands", "BedrockServer::_futureCommitCommandTimeouts"],
    "BedrockServer::_portMutex": ["BedrockServer::" + x for x in ("_commandPortBlockReasons", "_commandPortPublic", "_commandPortPrivate", "_controlPort", "_portPluginMap")],
    "BedrockServer::_crashCommandMutex": ["BedrockServer::_crashCommands"],
    "BedrockServer::_newSocketThreadBlockedMutex": ["BedrockServer::_shouldBlockNewSocketThreads"],
    "SMultiHostSocketPool::_poolMutex": ["SMultiHostSocketPool::_pools"],
    "SQLite::SharedData::_internalStateMutex": ["SQLite::SharedData::_preparedTransactions", "SQLite::SharedData::_committedTransactions"],
    "SQLitePeer::peerMutex": ["SQLitePeer::socket"],
    "SQLitePool::_sync": ["SQLitePool::_availableHandles", "SQLitePool::_inUseHandles"],
    "SSocketPool::_poolMutex": ["SSocketPool::_sockets", "SSocketPool::_exit"],
    "SSynchronizedQueue::_queueMutex": ["SSynchronizedQueue::_queue"],
    "STCPManager::Socket::sendRecvMutex": ["STCPManager::Socket::sendBuffer"],
    "ConflictLockGuard::controlMutex": ["ConflictLockGuard::mutexes", "ConflictLockGuard::mutexOrder", "ConflictLockGuard::mutexOrderFastLookup", "ConflictLockGuard::mutexCounts"],
    "std::atomic::m": ["std::atomic::_string"],
}


def nodes_of(L, fid):
    g = L.graph(fid)
    for n in g.nodes:
        e = n.e
        if n.k == "rangehead":
            e = e.get("range")
        elif n.k == "loop":
            continue
        elif isinstance(e, dict) and "k" not in e:
            e = e.get("init") or e.get("e")
        if n.k == "log" and isinstance(n.e, dict):
            for y in own_exprs(n.e):
                yield n, y
        elif isinstance(e, dict) and n.k != "dtor":
            yield n, e


def aliased(root):
    """ids of member expressions of which only the address is taken (a reference wrapper)."""
    return {id(strip(a)) for e in walk(root) if e.get("k") in ("ctor", "call") and (e.get("c") == "std::reference_wrapper" or re.match(r"std::(reference_wrapper\b|c?ref$)", e.get("q") or "")) for a in e.get("a", ()) if isinstance(a, dict)}


def write_marks(p, root):
    """ids of member expressions that the expression may modify."""
    w = set()
    for e in walk(root):
        t, shallow = None, False
        if is_assign(e):
            t = e["x"]
        elif e.get("k") == "un" and e["op"] in ("++", "--"):
            t = e["e"]
        elif e.get("k") == "call" and "obj" in e:
            d = p.decls.get(e.get("f"), {})
            if not d.get("const") and not p.NONMUT.search(e.get("q", "")) and e.get("op") not in ("*", "->", "bool"):
                t = e["obj"]
        ts = [t] if t is not None else []
        if e.get("k") in ("call", "ctor"):
            pt = p.decls.get(e.get("f"), {}).get("pt", ())
            for a, ty in zip(e.get("a", ()), pt):
                if ty.endswith("&") and not ty.startswith("const ") and not ty.endswith("&&"):
                    ts.append(a)
        for t in ts:
            t = strip(t)
            while isinstance(t, dict):
                if t["k"] == "mem":
                    w.add(id(t))
                    break
                if t["k"] == "idx":
                    t = strip(t["b"])
                elif t["k"] == "un" and t["op"] == "*":
                    t = strip(t["e"])
                elif t["k"] == "call" and "obj" in t:
                    t = strip(t["obj"])
                else:
                    break
    return w


def guarded(ctx, L, table, rule, exempt=()):
    """Every access of a guarded field happens with its mutex held (exclusively, if the access may modify it)."""
    p = ctx.p
    ftypes = p.field_types()
    owner = {}
    for m, fs in table.items():
        for f in fs:
            t = ftypes.get(f) if "::" in f else None
            if t is not None and re.search(r"\batomic\b", t):
                ctx.ok(rule + " (atomic)", f)
                continue
            owner[f] = m
    shared_mutex = {m for m in table if re.search(r"shared", ftypes.get(m, ""))}
    present = set()
    for fid in sorted(L.scope):
        f = p.fns[fid]
        if not L._accesses(f):
            continue
        cls = f.get("c")
        sites = {}
        mine = {id(e) for e in fn_exprs(f, True)}
        for n, ne in nodes_of(L, fid):
            marks = None
            for e in walk(ne):
                if e.get("k") not in ("mem", "var") or id(e) not in mine or bare(e.get("q") or "") not in owner or id(e) in aliased(ne):
                    continue
                if marks is None:
                    marks = write_marks(p, ne)
                fld = bare(e["q"])
                present.add(fld)
                if (f.get("isctor") or f.get("isdtor")) and fld.rsplit("::", 1)[0] == cls and strip(e.get("b") or {}).get("k") in ("this", None) and e["k"] == "mem":
                    continue
                if p.outer(f)["q"] in exempt:
                    continue
                w = id(e) in marks
                k = (fld, f["file"], e.get("l") or n.l)
                sites.setdefault(k, []).append((n, w))
        for (fld, fl, ln), ns in sites.items():
            m = owner[fld]
            nm = p.outer(f)["q"]
            ctx.ok(rule, "%s in %s" % (fld.split("::")[-1], nm))
            for n, w in ns:
                if L.at.get(fid) is not None and n.i not in L.at[fid]:
                    continue       # unreachable
                for ls in L.locksets(fid, n):
                    ls = {(bare(a), b) for a, b in ls}
                    if ("alone " + fld.rsplit("::", 1)[0], "L") in ls:
                        continue
                    if (m, "L") in ls or ((m, "S") in ls and not (w and m in shared_mutex)):
                        continue
                    sh = (m, "S") in ls
                    ctx.bad("guarded-by", nm, "%s %s" % (fld.split("::")[-1], "write" if w else "read"), n.where(),
                            "%s %s %s %s" % (nm, "modifies" if w else "reads", fld, "with %s only shared" % m if sh else "without holding %s%s" % (m, ", but with " + ", ".join(sorted(a for a, b in ls)) if ls else "")))
                    break
    return present


@prop("C10")
def node_state_lock(ctx):
    p = ctx.p
    fields = [f for fs in NODE_GUARDS.values() for f in fs]
    L = Locks(ctx, roots=NODE_ROOTS, guarded=fields)
    rule = "node state is accessed under its lock"
    guarded(ctx, L, NODE_GUARDS, rule, exempt=("SQLiteNode::kill",))
    ctx.need(rule, 30)
    # never locked again by a thread that has it
    rule2 = "state lock is not acquired by a thread that may hold it"
    seen = L.order()
    for fid in sorted(L.scope):
        if L.at.get(fid) is None:
            continue
        g = L.graph(fid)
        for n in g.nodes:
            for op, fld, path, sh, rp in lock_ops(n, g):
                if fld in (NODE + "_stateMutex", NODE + "_replicateMutex") and op in ("acquire", "raii-acquire", "try", "raii-lock"):
                    ctx.ok(rule2, "%s in %s" % (fld, p.outer(p.fns[fid])["q"]))
    for m in (NODE + "_stateMutex", NODE + "_replicateMutex"):
        for k, sh, where, fn, path in seen.get((m, m), ()):
            ctx.bad("self-deadlock", fn, m.split("::")[-1], where, "%s acquires %s while its thread may already hold it: the node stops for ever" % (fn, m))
    ctx.need(rule2, 12)
    # an unlocked condition-variable or manual unlock on the state lock would make the atomic section two sections
    for fid in sorted(L.scope):
        f = p.fns[fid]
        if L.at.get(fid) is None or f.get("c") not in ("SQLiteNode",) and not p.outer(f)["q"].startswith(NODE):
            continue
        g = L.graph(fid)
        for n in g.nodes:
            if n.k in ("exit", "excexit"):
                for t in L.at[fid].get(n.i, ()):
                    leak = [y for y in t if y[0] in "LS" and y[1].startswith(NODE) and y[3] is None and y[2] != "effect"]
                    if leak:
                        ctx.bad("lock-leak", p.outer(f)["q"], leak[0][1].split("::")[-1], n.where(), "%s can end with %s still locked" % (p.outer(f)["q"], leak[0][1]))


@prop("C40")
def guarded_fields(ctx):
    fields = [f for fs in GUARDS.values() for f in fs]
    L = Locks(ctx, roots=NODE_ROOTS, guarded=fields)
    rule = "shared field is accessed under its mutex"
    present = guarded(ctx, L, GUARDS, rule)
    ctx.notes.append("fields found: %d of %d" % (len(present), len(fields)))
    gone = [f for f in fields if f not in present]
    if gone:
        ctx.notes.append("not accessed anywhere: " + ", ".join(gone))
    ctx.need(rule, 60)


LOCK_LEAVERS = {"SQLite::beginTransaction", "SQLite::prepare", "SQLite::commit", "SQLite::rollback", "SQLite::exclusiveLockDB", "SQLite::exclusiveUnlockDB", "SQLite::_writeIdempotent",
                "ConflictLockGuard::ConflictLockGuard", "ConflictLockGuard::~ConflictLockGuard", "ConflictLockGuard::release"}


@prop("C41")
def lock_order(ctx):
    """No cycle in the order in which locks are taken while others are held; no non-recursive mutex taken twice; no lock left behind."""
    p = ctx.p
    L = Locks(ctx, roots=NODE_ROOTS)
    order = L.order()
    ft = p.field_types()
    rec = {bare(f) for f, t in ft.items() if "recursive" in t and "mutex" in t} | {bare(q) for q, t in getattr(p, "global_types", lambda: {})().items() if "recursive" in t}
    es = {}
    for (a, b), v in order.items():
        es.setdefault((bare(a), bare(b)), []).extend(v)
    acq = "blocking acquisitions"
    for fid in sorted(L.scope):
        if L.at.get(fid) is not None:
            for n in L.graph(fid).nodes:
                for op, fld, path, sh, rp in lock_ops(n, L.graph(fid)):
                    if op in ("acquire", "raii-acquire", "raii-lock"):
                        ctx.ok(acq, "%s in %s" % (fld, p.outer(p.fns[fid])["q"]))
    succ = defaultdict(set)
    for (a, b), v in sorted(es.items()):
        ctx.ok("ordered pairs of locks", "%s then %s" % (a, b))
        if a == b:
            if a in rec:
                continue
            if a == COMMIT_LOCK and a in rec:
                continue
            k, sh, where, fn, path = v[0]
            ctx.bad("self-deadlock", fn, a, where, "%s acquires %s (not recursive) while its thread may already hold it" % (fn, a))
        else:
            succ[a].add(b)
    # cycles
    for (a, b), v in sorted(es.items()):
        if a == b:
            continue
        seen, work, back = {b}, [b], {}
        while work:
            x = work.pop()
            for y in succ[x]:
                if y not in seen:
                    seen.add(y)
                    back[y] = x
                    work.append(y)
        if a in seen:
            cyc = [a]
            x = a
            while x != b and x in back:
                x = back[x]
                cyc.append(x)
            cyc = cyc[::-1]
            k, sh, where, fn, path = v[0]
            low = min((a, b), (a, b))
            ctx.bad("lock-cycle", fn, "%s->%s" % low, where, "%s waits for %s holding %s, and elsewhere %s is waited for holding %s (via %s): two threads can deadlock" % (fn, b, a, a, b, " -> ".join(cyc)))
    # nothing is left locked
    for fid in sorted(L.scope):
        f = p.fns[fid]
        if L.at.get(fid) is None or f["q"] in LOCK_LEAVERS or f["file"] in ("sqlitecluster/SQLite.cpp",):
            continue
        g = L.graph(fid)
        locks_here = any(True for n in g.nodes for op in lock_ops(n, g))
        if not locks_here:
            continue
        ctx.ok("functions that lock leave nothing locked", p.outer(f)["q"])
        for n in g.nodes:
            if n.k in ("exit", "excexit"):
                for t in L.at[fid].get(n.i, ()):
                    for y in t:
                        if y[0] in "LS" and y[3] is None and y[2] != "effect":
                            ctx.bad("lock-leak", p.outer(f)["q"], y[1], "%s:%d" % (f["file"], f["l"]), "%s can end with %s still locked%s" % (p.outer(f)["q"], y[1], " (exception)" if n.k == "excexit" else ""))
    ctx.need(acq, 90)
    ctx.need("ordered pairs of locks", 40)
    ctx.need("functions that lock leave nothing locked", 60)


ADD = {"insert", "emplace", "emplace_back", "emplace_front", "push_back", "push_front", "push", "insert_or_assign", "try_emplace", "splice", "merge", "swap", "emplace_hint"}
# condition variable -> (mutex, {field: what enables the waiter}, fact regex)
WAKE = {
    "BedrockCommandQueue::_queueCondition": ("BedrockCommandQueue::_queueMutex", {"BedrockCommandQueue::_queue": "add"}),
    "SQLitePool::_wait": ("SQLitePool::_sync", {"SQLitePool::_availableHandles": "add"}),
    "SQLiteNode::_replicateCV": ("SQLiteNode::_replicateMutex", {"SQLiteNode::_replicateQueue": "add", "SQLiteNode::_replicateThreadShouldExitTime": "set"}),
    "SSocketPool::_poolCV": ("SSocketPool::_poolMutex", {"SSocketPool::_sockets": "first", "SSocketPool::_exit": "set"}),
}


def enabling(n, g, kinds):
    """(field, kind) if node n makes a waiter's condition true."""
    e = n.e
    if n.k in ("call", "icall", "assign") and isinstance(e, dict) and e.get("k") == "call" and "obj" in e:
        f = mutex_field_in(e["obj"], n.fr, g)
        k = kinds.get(f)
        if k in ("add", "first") and e["q"].split("::")[-1] in ADD:
            return f, k
        if k == "set" and (e.get("op") == "=" or e["q"].split("::")[-1] in ("store", "exchange")):
            c = const_of(e["a"][0]) if e.get("a") else None
            return (f, k) if c not in ("c:0", "c:false") else None
    if n.k == "assign" and n.x:
        t = e.get("x") if e.get("k") == "bin" else None
        f = mutex_field_in(t, n.fr, g) if t is not None else None
        if kinds.get(f) == "set" and n.x[1] not in ("c:0", "c:false"):
            return f, "set"
    return None


@prop("C43")
def wakeups(ctx):
    p = ctx.p
    L = Locks(ctx, roots=NODE_ROOTS, guarded=[f for m, ks in WAKE.values() for f in ks] + list(WAKE))
    r1, r2, r3 = "a wait re-checks its condition", "an enabling change is followed by a notification", "the condition changes under the waiter's mutex"
    for fid in sorted(L.scope):
        f = p.fns[fid]
        if f.get("isctor"):
            continue
        nm = p.outer(f)["q"]
        uses = {cv for cv, (m, ks) in WAKE.items() if any(e.get("k") == "mem" and e["q"] in (cv, *ks) for e in fn_exprs(f))}
        if not uses:
            continue
        for cv in sorted(uses):
            m, kinds = WAKE[cv]
            # waits
            g = ctx.graph(f, same_class_private(p, f))
            succ = {n.i: [x.i for x, l in n.succ] for n in g.nodes}
            for n in g.nodes:
                if n.k == "call" and isinstance(n.e, dict) and n.e.get("k") == "call" and "obj" in n.e and mutex_field_in(n.e["obj"], n.fr, g) == cv and re.search(r"::wait(_for|_until)?$", n.q):
                    ctx.ok(r1, "%s in %s" % (cv, nm))
                    a = n.e.get("a", [])
                    pred = any(g.lambda_of(x, n.fr) for x in a if isinstance(x, dict))
                    if not pred:
                        seen, work = set(), list(succ[n.i])
                        while work:
                            x = work.pop()
                            if x not in seen:
                                seen.add(x)
                                work += succ[x]
                        if n.i not in seen:
                            ctx.bad("wait-once", nm, cv, n.where(), "%s waits on %s without a loop or predicate: a spurious wake-up is taken for the real thing" % (nm, cv))
            if not any(enabling(n, g, kinds) for n in g.nodes):
                continue

            def ev(n, t, facts, x, cv=cv, m=m, kinds=kinds):
                en = enabling(n, x.g, kinds)
                t = HELD(n, t, x.g)
                if en:
                    ctx.ok(r3, "%s in %s" % (en[0], nm))
                    held = holds(t, m) or all(any(bare(a) == m for a, b in ls) for ls in L.locksets(fid, None)) and L.ctxs.get(fid)
                    if not held:
                        ctx.bad("unlocked-condition", nm, en[0], n.where(), "%s changes %s without %s: a thread about to wait on %s can miss it" % (nm, en[0], m, cv), x.trace())
                    ctx.ok(r2, "%s in %s" % (en[0], nm))
                    t = frozenset(y for y in t if y[0] != "P") | {("P",) + en}
                if n.k == "call" and isinstance(n.e, dict) and n.e.get("k") == "call" and "obj" in n.e and mutex_field_in(n.e["obj"], n.fr, x.g) == cv and re.search(r"::notify_(one|all)$", n.q):
                    t = frozenset(y for y in t if y[0] != "P")
                pend = [y for y in t if y[0] == "P"]
                done = n.k == "exit" or n.k == "call" and n.q == "std::thread::join"
                if pend and done:
                    fld, kind = pend[0][1:]
                    if kind == "first" and (known(facts, ("eq", "this._sockets.size()", "c:1")) is False or known(facts, ("lt", "c:1", "this._sockets.size()")) is True):
                        return t
                    ctx.bad("no-notify", nm, fld, n.where(), "%s changes %s and can end without notifying %s: the waiter sleeps on" % (nm, fld, cv), x.trace())
                    t = frozenset(y for y in t if y[0] != "P")
                return t

            def edge(n, lab, m2, t, facts, x):
                # nobody waits when there is no thread
                if n.k == "branch" and n.x and n.x[0][0] in ("t", "eq") and "_replicateThread" in str(n.x[0]) and "ExitTime" not in str(n.x[0]):
                    f3 = known(x.assume(facts, n.x[0], (lab == "T") == n.x[1]), ("t", "this._replicateThread"))
                    none = f3 is False or (n.x[0][0] == "eq" and (lab == "T") == n.x[1])
                    if none:
                        t = frozenset(y for y in t if y[0] != "P")
                if lab == "exc":
                    t = frozenset(y for y in t if y[0] != "P")
                return t
            ctx.explore(g, Flow(ev, r"_sockets.size|needWake|_replicateThread|isReplicationRunning", edges=edge))
    # the queue whose waiters poll a pipe
    r4 = "a pushed item makes the queue's pipe readable"
    for f in p.fns.values():
        if bare(f["q"]) == "SSynchronizedQueue::push":
            g = ctx.graph(f)

            def ev(n, t, facts, x):
                if n.k == "call" and isinstance(n.e, dict) and "obj" in n.e and bare(mutex_field_in(n.e["obj"], n.fr, x.g) or "") == "SSynchronizedQueue::_queue" and n.q.split("::")[-1] in ADD:
                    ctx.ok(r4, f["q"])
                    t = t | {"added"}
                if n.k == "call" and n.q.split("::")[-1] == "write" and "added" in t and "_pipeFD" in str(n.e):
                    t = t - {"added"}
                if n.k == "exit" and "added" in t:
                    ctx.bad("no-notify", f["q"], "pipe", "%s:%d" % (f["file"], f["l"]), "an item can be pushed without waking the thread that polls the queue", x.trace())
                return t
            ctx.explore(g, Flow(ev))
    # the log ring buffer
    r5 = "a published slot is announced"
    for f in p.fns.values():
        if bare(f["q"]) in ("SRingBuffer::push", "SRingBuffer::shutdown"):
            g = ctx.graph(f)

            def ev(n, t, facts, x):
                if n.k in ("call", "assign") and isinstance(n.e, dict) and "obj" in n.e and bare(n.e.get("q") or "").endswith("::store") and "::state" in str(strip(n.e["obj"]).get("q", "")):
                    ctx.ok(r5, f["q"])
                    t = t | {"stored"}
                if n.k == "call" and bare(n.q).split("::")[-1] in ("notify_one", "notify_all") and "::state" in str(strip(n.e["obj"]).get("q", "")):
                    t = t - {"stored"}
                if n.k == "exit" and "stored" in t:
                    ctx.bad("no-notify", f["q"], "state", "%s:%d" % (f["file"], f["l"]), "%s publishes a slot without notifying the consumer" % f["q"], x.trace())
                return t
            ctx.explore(g, Flow(ev))
    ctx.need(r1, 6)
    ctx.need(r2, 4)
    ctx.need(r4, 1)
    ctx.need(r5, 2)


def same_class_private(p, f):
    def want(h, e, fr):
        return h.get("c") == f.get("c") and f.get("c") is not None and h.get("acc") == 2 and not h.get("virtual") and h["id"] != f["id"] and p.outer(f)["q"] != "SQLiteNode::_onMESSAGE" and h["q"] == "BedrockCommandQueue::_dequeue"
    return want
