"""Cluster node: decisions (C12), leaving leadership (C11), forked peers (C13), standup responses (C14), replication (C15, C16), messages (C17-C19)."""
from . import prop
from ..lib import *
from ..cases import *

NODE = "SQLiteNode::"
PEERS = NODE + "_peerList"
PEER = "SQLitePeer::"
S = lambda x: Explorer.ENUMS["SQLiteNodeState::" + x]
R = lambda x: Explorer.ENUMS["SQLitePeer::Response::" + x]
LEADISH = ("STANDINGUP", "LEADING", "STANDINGDOWN")
EFFECTS = {NODE + x for x in ("_changeState", "_sendToPeer", "_sendToAllPeers", "_updateSyncPeer", "_reconnectPeer", "_reconnectAll", "_sendOutstandingTransactions", "_onMESSAGE", "_queueSynchronize",
                              "_recvSynchronize", "_dieIfForkedFromCluster", "_sendStandupResponse")}


def helpers(h, e, fr):
    """Inline private helpers of the node, but not its effects."""
    return h.get("lambda") or h.get("c") == "SQLiteNode" and h.get("acc") != 0 and h["q"] not in EFFECTS or h.get("c") == "SQLitePeer" and bool(h.get("const"))


KNOWN = {NODE + x for x in """_acceptSocket _addPeerHeaders _changeState _dieIfForkedFromCluster _getLostQuorumLogMessage _handleBeginTransaction _handleCommitTransaction _handlePrepareTransaction _initPeers _isNothingBlockingShutdown _majoritySubscribed _onConnect _onDisconnect _onMESSAGE _processPeerMessages _queueSynchronize _reconnectAll _reconnectPeer _recvSynchronize _replicate _sendOutstandingTransactions _sendPING _sendStandupResponse _sendToAllPeers _sendToPeer _updateSyncPeer""".split()}


def fresh(h, e, fr):
    """Inline helpers that this code base does not have today (extracted from the functions analysed)."""
    return h.get("lambda") or h.get("c") in ("SQLiteNode", "SQLitePeer") and h.get("acc") != 0 and h["q"] not in KNOWN or "c" not in h and h["file"].startswith("sqlitecluster/SQLiteNode") and h["q"] not in KNOWN


def field_leaf(table, lead=None, ours=None):
    """Scenario values of node fields: {field: value}; lead: fields of the peer `_leadPeer` points to; ours: our commit count."""
    def leaf(e, fr, g):
        k = e.get("k")
        if k == "var" and e.get("q"):
            return table.get(e["q"])
        if k not in ("mem", "call", "un"):
            return None
        if k == "call" and ("obj" not in e or e.get("op") in ("=", "==", "!=")):
            return None
        o, f = origin(e, fr, g)
        if not isinstance(o, dict) or o.get("k") not in ("mem", "var") or not o.get("q"):
            return None
        q = o["q"]
        if q in table:
            return table[q]
        if ours is not None and q == "SQLite::SharedData::commitCount":
            return ours
        if lead and q.startswith(PEER) and "b" in o and origin_field(o["b"], f, g) == NODE + "_leadPeer":
            return lead.get(q.split("::")[-1])
        return None
    return leaf


def go_events(n, a, facts, x):
    """A state change ends the exploration with the state it goes to."""
    if n.k == "throw":
        return ("end", "throw", a)
    if n.k == "call" and n.q == NODE + "_changeState" and call_args(n):
        v = const_of(call_args(n)[0])
        if v is None:
            return ("end", "go:?", frozenset())
        return ("end", "go:" + v.split("::")[-1], frozenset(t for t in a if t[0] != "env"))
    if n.k == "assign" and n.x and isinstance(n.e, dict):
        for f, p, c, v in written(n, x.g):
            if f == PEER + "standupResponse" and c == "c:SQLitePeer::Response::NONE":
                a = a | {("reset",)}
    elif n.k == "call" and n.e.get("op") == "=" or n.k == "call" and n.q.endswith("::store"):
        for f, p, c, v in written(n, x.g):
            if f == PEER + "standupResponse" and (c == "c:SQLitePeer::Response::NONE" or const_of(n.e["a"][0]) == "c:SQLitePeer::Response::NONE"):
                a = a | {("reset",)}
    return a


def pops(dims, n, ids=False, keep=None):
    els = [e for e in elements(dims) if keep is None or keep(dict(e))]
    for k in range(n + 1):
        for c in itertools.combinations_with_replacement(els, k):
            yield tuple(tuple(sorted(dict(e, **{"": 100 + i if ids else 100}).items())) for i, e in enumerate(c))


def full(pop):
    return [d for d in map(dict, pop) if not d.get("permaFollower")]


def inn(ds):
    return [d for d in ds if d.get("loggedIn")]


def show(pop):
    return "[" + ", ".join("{" + ",".join("%s=%s" % kv for kv in el if kv[0]) + "}" for el in pop) + "]"


def compare(ctx, c, rule, fn, pop, starts, want, scen, kinds=None, need=None, toks=frozenset()):
    """The ends reachable for a population lie within `want` (a set, or (must, may))."""
    ends = c.population(pop, starts, toks=toks)
    got = {}
    for kind, n, t, f in ends:
        k = kind if kinds is None else kinds(kind, n, t, f)
        if k is not None:
            got.setdefault(k, n)
    must, may = want if isinstance(want, tuple) else (want, want)
    ctx.ok(rule, "%s: %s" % (scen, fn))
    extra = set(got) - set(may)
    missing = set(must) - set(got)
    # loops over the peers in another form than a range loop are not followed: no answer about the decisions behind them
    blind = foreign(c)
    if (extra or missing) and not blind:
        w = sorted(extra)[0] if extra else sorted(missing)[0]
        n = got.get(w)
        ctx.bad(rule, fn, "%s %s" % (scen.split(" ours")[0].split(" with")[0], "may reach" if extra else "never reaches"), n.where() if n else "%s:%d" % (c.g.root_fn["file"], c.g.root_fn["l"]),
                "with peers %s (%s) %s %s %s; expected %s" % (show(pop), scen, fn, "can end with" if extra else "does not end with", ", ".join(sorted(extra or missing)), ", ".join(sorted(may)) or "nothing"))
    elif extra or missing:
        ctx.notes.append("loop over the peers at %s is not followed: %s not compared for %s" % (blind[0].where(), rule, fn))
    return ends


def foreign(c):
    """Nodes that use the peer list other than in a range loop or for its size."""
    if not hasattr(c, "_foreign"):
        g = c.g
        c._foreign = []
        for n in g.nodes:
            if n.k == "rangehead" or not isinstance(n.e, dict) or "k" not in n.e:
                continue
            sized = {id(strip(e["obj"])) for e in walk(n.e) if e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] in ("size", "empty")}
            if any(e.get("k") == "mem" and e.get("q") == PEERS and id(e) not in sized for e in walk(n.e)):
                c._foreign.append(n)
    return c._foreign


@prop("C12")
def quorum(ctx):
    p = ctx.p
    N = 4 if ctx.tier == "thorough" else 3
    up = ctx.graph(NODE + "update", helpers)
    B = [False, True]
    b01 = [0, 1]
    base = {NODE + "_isShuttingDown": 0, NODE + "NODE_KILLED": 0, NODE + "_leadPeer": 0}

    def cases(g, table, lead=None, ours=10, events=go_events):
        c = Cases(ctx, g, PEERS, field_leaf(dict(base, **table), lead, ours), events)
        return c

    def goes(kind, n, t, f):
        return None if kind == "throw" and n is not None and n.k != "throw" else kind if kind.startswith("go:") or kind in ("abort", "throw") else "stay"

    # ---- SEARCHING
    for shut in (0, 1):
        c = cases(up, {NODE + "_state": S("SEARCHING"), NODE + "_isShuttingDown": shut})
        for pop in pops({"permaFollower": b01, "loggedIn": b01, "forked": b01, "commitCount": [10, 11], "state": [S("WAITING")]}, N, keep=lambda d: d["commitCount"] == 10 or d["loggedIn"] and not d["forked"]):
            ds = list(map(dict, pop))
            fresh = [d["commitCount"] for d in ds if d["loggedIn"] and not d["forked"]]
            if shut:
                want = {"stay"}
            elif not ds:
                want = {"go:LEADING"}
            elif 2 * len(inn(full(pop))) < len(full(pop)) or not fresh:
                want = {"stay"}
            elif max(fresh) <= 10:
                want = {"go:WAITING"}
            else:
                want = (set(), {"stay", "go:SYNCHRONIZING"})
            compare(ctx, c, "a searching node only moves on with half the full peers and a peer to agree with", NODE + "update", pop, [up.entry], want, "SEARCHING%s" % (" while shutting down" if shut else ""), goes)
    ctx.require(c.loops, "no loop over the peer list found in update()")

    # ---- WAITING
    for ours, shut in ((5, 0), (0, 0), (-1, 0), (5, 1)):
        c = cases(up, {NODE + "_state": S("WAITING"), NODE + "_isShuttingDown": shut, NODE + "_priority": ours})
        low = 4 if ours == 5 else -3
        dims = {"permaFollower": b01, "loggedIn": b01, "forked": b01, "commitCount": [10, 11], "priority": [low, 7], "state": [S(x) for x in ("WAITING",) + LEADISH]}
        plain = lambda d: d["commitCount"] == 10 and d["priority"] == low

        def keep(d):
            usable = d["loggedIn"] and not d["forked"] and not d["permaFollower"]
            if not usable:
                # an ineligible peer is shown at its most tempting: leading, more commits, highest priority
                return d["commitCount"] == 11 and d["priority"] == 7 and d["state"] in (S("LEADING"), S("WAITING"))
            return ours == 5 and not shut or plain(d) or d["state"] == S("WAITING")
        for pop in pops(dims, 2 if N == 3 else 3, keep=keep):
            es = [d for d in full(pop) if not d["forked"]]
            li = inn(es)
            leaders = [d for d in li if d["state"] in [S(x) for x in LEADISH]]
            if shut or not li:
                want = {"go:SEARCHING"}
            else:
                hp, fresh = max(d["priority"] for d in li), max(d["commitCount"] for d in li)
                leading = {d["state"] == S("LEADING") for d in leaders}
                later = {"go:SEARCHING"} if fresh > 10 else {"go:STANDINGUP"} if not leaders and 2 * len(li) >= len(es) and ours > 0 and ours > hp else {"stay"}
                if leaders and ours < hp and leading == {True}:
                    want = {"go:SUBSCRIBING"}
                elif leaders and ours < hp and len(leading) == 2:
                    want = (set(), later | {"go:SUBSCRIBING"})
                else:
                    want = later
            for kind, n, t, f in compare(ctx, c, "a waiting node stands up only with quorum, no leader, the highest real priority and no missing commits", NODE + "update", pop, [up.entry], want,
                                         "WAITING%s ours=%d" % (" while shutting down" if shut else "", ours), goes):
                if kind == "go:STANDINGUP":
                    ctx.ok("old standup responses are forgotten before standing up", "WAITING")
                    if pop and ("reset",) not in t:
                        ctx.bad("stale standup responses", NODE + "update", "reset", n.where(), "the node starts standing up without resetting every peer's standup response: approvals of an earlier attempt count")

    # ---- STANDINGUP
    for shut in (0, 1):
        c = cases(up, {NODE + "_state": S("STANDINGUP"), NODE + "_isShuttingDown": shut})
        for pop in pops({"permaFollower": b01, "loggedIn": b01, "forked": b01, "standupResponse": [R("NONE"), R("APPROVE"), R("DENY")]}, N,
                        keep=lambda d: not (d["permaFollower"] and not d["loggedIn"]) and (not d["forked"] or d["loggedIn"] and not d["permaFollower"])):
            fs = full(pop)
            li = inn(fs)
            ap = [d for d in li if d["standupResponse"] == R("APPROVE")]
            forked = any(d["forked"] for d in fs)
            if shut:
                want = {"go:SEARCHING"}
            elif any(d["standupResponse"] == R("DENY") for d in li):
                want = (set() if forked else {"go:SEARCHING"}, {"go:SEARCHING"} | ({"stay"} if forked else set()))
            elif 2 * len(li) >= len(fs) and 2 * len(ap) >= len(fs):
                want = ({"go:LEADING"} if not forked else set(), {"go:LEADING"} | ({"stay", "go:SEARCHING"} if forked else set()))
            else:
                want = (set(), {"stay", "go:SEARCHING"})
            compare(ctx, c, "a node only leads with the approval of at least half of all full peers and no denial", NODE + "update", pop, [up.entry], want, "STANDINGUP%s" % (" while shutting down" if shut else ""), goes)

    # ---- LEADING / STANDINGDOWN
    for ours, shut in ((5, 0), (1, 0), (5, 1)):
        c = cases(up, {NODE + "_state": S("LEADING"), NODE + "_isShuttingDown": shut, NODE + "_priority": ours})
        for pop in pops({"permaFollower": [0], "loggedIn": [1], "forked": [0], "commitCount": [10, 11], "priority": [4, 7], "state": [S("LEADING"), S("WAITING"), S("FOLLOWING")]}, 2):
            ds = list(map(dict, pop))
            why = ours == 1 or shut or any(d["state"] == S("LEADING") or d["state"] == S("WAITING") and (d["priority"] > 5 or d["commitCount"] > 10) for d in ds)
            compare(ctx, c, "a leader stands down for another leader, for a better waiting peer and at shutdown", NODE + "update", pop, [up.entry], {"go:STANDINGDOWN"} if why else {"stay"},
                    "LEADING%s ours=%d" % (" while shutting down" if shut else "", ours), goes)
    c = cases(up, {NODE + "_state": S("STANDINGDOWN")})
    for pop in pops({"permaFollower": b01, "loggedIn": b01, "state": [S("WAITING")]}, 1):
        compare(ctx, c, "standing down ends in SEARCHING", NODE + "update", pop, [up.entry], {"go:SEARCHING"}, "STANDINGDOWN", goes)

    # ---- SYNCHRONIZING, SUBSCRIBING, FOLLOWING
    for st in ("SYNCHRONIZING", "SUBSCRIBING"):
        for shut in (0, 1):
            c = cases(up, {NODE + "_state": S(st), NODE + "_isShuttingDown": shut, NODE + "_leadPeer": 100, NODE + "_syncPeer": 100})
            compare(ctx, c, "a node that waits for data only gives up, it never leads or follows by itself", NODE + "update", (), [up.entry], {"go:SEARCHING"} if shut else {"stay", "go:SEARCHING"}, "%s%s" % (st, " while shutting down" if shut else ""), goes)
    for st in ("UNKNOWN", "SEARCHING", "SYNCHRONIZING", "WAITING") + LEADISH + ("SUBSCRIBING", "FOLLOWING"):
        c = cases(up, {NODE + "_state": S("FOLLOWING"), NODE + "_leadPeer": 100}, lead={"state": S(st)})
        compare(ctx, c, "a follower leaves a leader that no longer leads, and no other", NODE + "update", (), [up.entry], {"stay"} if st in LEADISH[1:] else {"go:SEARCHING"}, "FOLLOWING a %s leader" % st, goes)

    # ---- losing peers
    od = ctx.graph(NODE + "_onDisconnect", helpers)
    gone = od.root_fn["p"][0]
    pt = frozenset({("env", od.canon({"k": "var", "n": gone["n"], "id": gone["id"], "vk": "param", "t": gone["t"]}, od.root), 100)})
    for st in ("SEARCHING", "WAITING") + LEADISH + ("FOLLOWING",):
        c = cases(od, {NODE + "_state": S(st), NODE + "_leadPeer": 0, NODE + "_syncPeer": 0})
        for pop in pops({"permaFollower": b01, "loggedIn": b01}, N, ids=True):
            if not pop:
                continue
            for i in range(len(pop)):
                # the i-th peer is the one that disconnected
                tk = frozenset({("env", next(iter(pt))[1], 100 + i)})
                others = [e for j, e in enumerate(pop) if j != i]
                lost = 2 * len(inn(full(others))) < len(full(others))
                want = {"go:SEARCHING"} if lost and st in LEADISH else {"stay"}
                compare(ctx, c, "a leading node that loses its quorum stops leading at once", NODE + "_onDisconnect", pop, [od.entry], want, "%s" % st, goes, toks=tk)
    for fld in ("_leadPeer", "_syncPeer"):
        c = cases(od, {NODE + "_state": S("FOLLOWING" if fld == "_leadPeer" else "SYNCHRONIZING"), NODE + "_leadPeer": 0, NODE + "_syncPeer": 0, NODE + fld: 100})
        compare(ctx, c, "losing the leader or the synchronization peer leads back to SEARCHING", NODE + "_onDisconnect", (), [od.entry], {"go:SEARCHING"}, "lost " + fld, goes, toks=pt)

    # ---- forked from the cluster
    df = ctx.graph(NODE + "_dieIfForkedFromCluster", helpers)
    for prio in (0, 5):
        c = cases(df, {NODE + "_configuredPriority": prio})
        for pop in pops({"permaFollower": b01, "forked": b01, "loggedIn": b01}, N, keep=lambda d: d["loggedIn"] or not d["forked"]):
            fs = full(pop)
            n = len(fs) + (prio != 0)
            dead = len([d for d in fs if d["forked"]]) >= (n + 1) // 2
            compare(ctx, c, "a node forked from at least half of the voting cluster dies", NODE + "_dieIfForkedFromCluster", pop, [df.entry], {"abort"} if dead else {"stay"}, "configured priority %d" % prio, goes)

    # ---- priority changes
    sp = ctx.graph(NODE + "setPriority", helpers)
    np = sp.root_fn["p"][0]
    for old in (-1, 5):
        for new in (-3, 0, 1, 6):
            c = cases(sp, {NODE + "_configuredPriority": 5, NODE + "_priority": old, NODE + "_state": S("FOLLOWING")}, events=lambda n, a, facts, x: ("end", "throw", a) if n.k == "throw" else a)
            tk = frozenset({("env", sp.canon({"k": "var", "n": np["n"], "id": np["id"], "vk": "param", "t": np["t"]}, sp.root), new)})
            for pop in pops({"permaFollower": b01, "loggedIn": b01, "priority": [4, 6], "state": [S("FOLLOWING")]}, N, keep=lambda d: d["loggedIn"] or d["priority"] == 4):
                ds = list(map(dict, pop))
                bad = new < 0 or new == 1 or any(d["loggedIn"] and d["priority"] == new for d in ds) or new == 0 and old > 0 and len(full(pop)) < (len(ds) + 2) // 2
                compare(ctx, c, "a priority change that breaks quorum or uniqueness is refused", NODE + "setPriority", pop, [sp.entry], {"throw"} if bad else {"exit"}, "priority %d to %d" % (old, new),
                        lambda k, n, t, f: None if k == "throw" and n.k != "throw" else k, toks=tk)
    for prio, st, lead, following, want in ((6, "LEADING", None, 7, {"go:STANDINGDOWN"}), (6, "LEADING", None, 4, {"stay"}), (6, "FOLLOWING", {"loggedIn": 1, "state": S("LEADING"), "priority": 4}, 4, {"go:SEARCHING"}),
                                            (6, "FOLLOWING", {"loggedIn": 1, "state": S("LEADING"), "priority": 7}, 4, {"stay"}), (6, "SEARCHING", None, 7, {"stay"})):
        c = cases(sp, {NODE + "_configuredPriority": 5, NODE + "_priority": 5, NODE + "_state": S(st), NODE + "_leadPeer": 100 if lead else 0}, lead=lead)
        tk = frozenset({("env", sp.canon({"k": "var", "n": np["n"], "id": np["id"], "vk": "param", "t": np["t"]}, sp.root), prio)})
        for pop in pops({"permaFollower": [0], "loggedIn": [1], "priority": [following], "state": [S("FOLLOWING")]}, 1):
            if pop:
                compare(ctx, c, "after a priority change the highest priority node leads", NODE + "setPriority", pop, [sp.entry], want, "%s, priority 5 to %d, peer %d" % (st, prio, following), goes, toks=tk)

    # ---- majority of followers
    ms = ctx.graph(NODE + "_majoritySubscribed", helpers)

    def ret(n, a, facts, x):
        if n.k == "return" and n.fr is x.g.root and isinstance(n.e, dict):
            e = n.e.get("e", n.e)
            v = value(e, n.fr, x.g, a, c.leaf)
            return ("end", "ret:%s" % v, frozenset())
        return a
    c = cases(ms, {}, events=ret)
    for pop in pops({"permaFollower": b01, "subscribed": b01}, N):
        yes = 2 * len([d for d in full(pop) if d["subscribed"]]) >= len(full(pop))
        compare(ctx, c, "a majority means half of all full peers subscribed", NODE + "_majoritySubscribed", pop, [ms.entry], {"ret:%d" % yes}, "count", lambda k, n, t, f: k)

    # ---- who to synchronize from
    us = ctx.graph(NODE + "_updateSyncPeer", helpers)
    c = cases(us, {}, events=None)
    for pop in pops({"loggedIn": b01, "forked": b01, "permaFollower": [0], "commitCount": [10, 11, 12], "latency": [0, 5, 9], "state": [S("WAITING"), S("LEADING")]}, 2, ids=True,
                    keep=lambda d: (d["loggedIn"] and not d["forked"] and d["commitCount"] > 10) or d["latency"] == 5 and d["state"] == S("WAITING") and (d["commitCount"] == 11 if d["loggedIn"] != 1 or d["forked"] else True)):
        ok = [d for d in map(dict, pop) if d["loggedIn"] and not d["forked"] and d["commitCount"] > 10]
        best = [d for d in ok if d["state"] != S("LEADING")] or ok
        want = {"sync:%d" % d[""] for d in best} or {"sync:0"}
        for init in (0, 99):
            tk = frozenset({("env", "this._syncPeer", init)})
            compare(ctx, c, "commits are only fetched from a logged-in peer that has more and has not forked", NODE + "_updateSyncPeer", pop, [us.entry], (set(), want), "previous %d" % init,
                    lambda k, n, t, f: "sync:%s" % env_get(t, "this._syncPeer") if k == "exit" else k, toks=tk)
    for r in ("a searching node only moves on with half the full peers and a peer to agree with", "a node only leads with the approval of at least half of all full peers and no denial",
              "a leading node that loses its quorum stops leading at once"):
        ctx.need(r, 10)


# ------------------------------------------------------------------ event sequences
def seq(a):
    for t in a:
        if t[0] == "seq":
            return t[1]
    return ()


def push(a, *evs):
    s = seq(a) + tuple(evs)
    if len(s) > 60:
        s = s[:60]
    return frozenset(t for t in a if t[0] != "seq") | {("seq", s)}


def has_order(s, *names):
    """The named events all occur, in this order (first occurrences after one another)."""
    i = 0
    for nm in names:
        while i < len(s) and s[i] != nm:
            i += 1
        if i == len(s):
            return False
        i += 1
    return True


def obj_field(n, g):
    return mutex_field_in(n.e["obj"], n.fr, g) if isinstance(n.e, dict) and "obj" in n.e else None


def stores(n, g):
    """(field, path, const, source canon, value expr) written by node n, also through operator=, store and exchange."""
    out = []
    e = n.e
    if n.k not in ("assign", "call", "icall") or not isinstance(e, dict):
        return out
    t = y = None
    if e.get("k") == "bin" and is_assign(e):
        t, y = e["x"], (e["y"] if e["op"] == "=" else None)
    elif e.get("k") == "un" and e["op"] in ("++", "--"):
        t = e["e"]
    elif e.get("k") == "call" and "obj" in e and (e.get("op") in ("=", "+=", "-=", "++", "--", "|=", "&=") or e.get("q", "").split("::")[-1] in ("store", "exchange", "fetch_add", "fetch_sub", "clear", "insert", "erase", "emplace",
                                                                                                                             "push_back", "emplace_back", "pop", "push", "reset", "swap", "operator++", "operator--")):
        t = e["obj"]
        y = e["a"][0] if e.get("a") and (e.get("op") == "=" or e["q"].split("::")[-1] in ("store", "exchange")) else None
    if t is not None:
        f = mutex_field_in(t, n.fr, g)
        if f:
            v = g.canon(y, n.fr) if isinstance(y, dict) else None
            c = const_of(y) if isinstance(y, dict) else None
            if c is None and isinstance(y, dict) and strip(y).get("k") == "null":
                c = "c:null"
            if c is None and n.k == "assign" and n.x and n.x[1]:
                c = n.x[1]
            out.append((f, g.canon(t, n.fr), c, v, y))
    return out


def pv(g, name_or_i):
    """Canonical path of a parameter of the root function."""
    p = g.root_fn["p"][name_or_i]
    return g.canon({"k": "var", "n": p["n"], "id": p["id"], "vk": "param", "t": p["t"]}, g.root)


STATES = ("UNKNOWN", "SEARCHING", "SYNCHRONIZING", "WAITING") + LEADISH + ("SUBSCRIBING", "FOLLOWING")


def state_table(keep):
    """Node fields that a scenario fixes until the code changes them: through the environment, so that stores take effect."""
    return frozenset(("env", "this." + k, v) for k, v in keep.items())


@prop("C11")
def leaving_leadership(ctx):
    p = ctx.p
    g = ctx.graph(NODE + "_changeState", helpers)
    fn = NODE + "_changeState"
    newp = pv(g, 0)
    REPL = NODE + "_replicateMutex"

    def events(n, a, facts, x):
        if n.k in ("call", "icall"):
            q, e = n.q, n.e
            if q == "SQLite::setCommitEnabled":
                v = value(call_args(n)[0], n.fr, g, a)
                a = push(a, "enable" if v else "disable" if v == 0 else "gate?")
            elif q == NODE + "_sendOutstandingTransactions":
                a = push(a, "send")
            elif q == "SQLite::exclusiveLockDB":
                a = push(a, "lock")
            elif q == "SQLite::exclusiveUnlockDB":
                a = push(a, "unlock")
            elif q == NODE + "_sendToAllPeers":
                m = method_of(call_args(n)[0], n.fr, g)
                sub = value(call_args(n)[1], n.fr, g, a) if len(call_args(n)) > 1 else 0
                a = push(a, "bcast" if m == "STATE" and not sub else "bcast?")
            elif q == "SQLite::popCommittedTransactions":
                a = push(a, "pop")
            elif q == "std::thread::join" and obj_field(n, g) == NODE + "_replicateThread":
                a = push(a, "join")
            elif re.search(r"::notify_(one|all)$", q) and obj_field(n, g) == NODE + "_replicateCV":
                a = push(a, "notify")
        for f, path, c, v, y in stores(n, g):
            if f == NODE + "_state":
                val = value(y, n.fr, g, a) if y is not None else None
                a = push(a, "state" if val is not None and val == env_get(a, newp) else "state?")
            elif f == PEER + "subscribed":
                a = push(a, "unsub" if c == "c:false" else "sub?")
            elif f == NODE + "_leadPeer":
                a = push(a, "nolead" if c == "c:null" else "lead?")
            elif f == NODE + "_lastSentTransactionID":
                o = origin_field(y, n.fr, g) if y is not None else None
                a = push(a, "lastsent" if o == "SQLite::SharedData::commitCount" else "lastsent?")
            elif f == NODE + "_replicateThreadShouldExitTime":
                a = push(a, "rearm" if c == "c:0" else "exittime")
            elif f == NODE + "_replicateQueue":
                a = push(a, "drop")
            elif f == NODE + "_replicateThread":
                a = push(a, "nothread" if c == "c:null" else "thread?")
            elif f == NODE + "_stateChangeCount":
                a = push(a, "count")
        return a

    rules = {k: ctx.ok for k in ()}
    bad = lambda rule, det, n, text: ctx.bad(rule, fn, det, n.where() if n is not None and n.k not in ("exit",) else "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), text)
    R1, R2, R3, R4, R5 = ("leaving leadership: commits off, then everything unsent is sent, then nobody is subscribed", "the state changes and is broadcast with the database locked",
                          "leaving FOLLOWING stops replication first", "starting to lead forgets old transactions and starts counting at the current commit", "a node without leader has no lead peer")
    for old in STATES:
        for new in STATES:
            c = Cases(ctx, g, PEERS, None, events)
            t0 = frozenset({("env", "this._state", S(old)), ("env", newp, S(new)), ("env", "this._replicateThread", 7), ("env", "this._leadPeer", 8)})
            ends = []
            for fk in (0, 1) if new == "SEARCHING" else (0,):
                pop = tuple(tuple(sorted(dict(loggedIn=1, permaFollower=0, forked=fk * i, subscribed=1, **{"": 100 + i}).items())) for i in range(2))
                ends += [(k, n, t) for k, n, t, f in c.population(pop, [g.entry], frozenset(), t0) if k in ("exit", "abort")]
            ctx.require(ends, "no end of _changeState reached for %s to %s" % (old, new))
            for k, n, t in ends:
                s = seq(t)
                what = "%s to %s" % (old, new)
                if old == new:
                    ctx.ok("a change to the same state does nothing", what)
                    if s:
                        bad("no change", "same state", n, "_changeState(%s) in that state has effects: %s" % (new, ", ".join(s)))
                    continue
                ctx.ok(R2, what)
                core = [e for e in s if e in ("lock", "state", "state?", "bcast", "bcast?", "unlock", "count")]
                if s.count("state") != 1 or "state?" in s:
                    bad("state store", "state", n, "changing %s: the state is stored %d times (or with another value) on a path" % (what, s.count("state") + s.count("state?")))
                elif s.count("bcast") != 1:
                    bad("state broadcast", "bcast", n, "changing %s: the new state is broadcast %d times on a path, peers miss the change" % (what, s.count("bcast")))
                elif not has_order(s, "lock", "state", "bcast", "unlock") or s.count("lock") != 1 or s.count("unlock") != 1:
                    bad("state under database lock", "lock", n, "changing %s: the state is not stored and broadcast between one lock and one unlock of the database (%s): a commit can slip in between" % (what, ", ".join(core)))
                elif "count" not in s or s.index("count") > s.index("bcast"):
                    bad("state counter", "count", n, "changing %s: the state change count is not advanced before the broadcast, so old standup responses look current" % what)
                was, now = old in LEADISH[1:], new in LEADISH[1:]
                gate = [e for e in s if e in ("enable", "disable", "gate?")]
                if was and not now:
                    ctx.ok(R1, what)
                    i = s.index("state") if "state" in s else len(s)
                    pre = s[:i]
                    if "disable" not in pre:
                        bad("commits stay enabled", "disable", n, "leaving leadership (%s) without disabling commits first: a late commit is never sent" % what)
                    elif "send" not in pre[pre.index("disable"):]:
                        bad("unsent transactions", "send", n, "leaving leadership (%s) without sending the outstanding transactions after commits are off" % what)
                    else:
                        last = len(pre) - 1 - pre[::-1].index("send")
                        if "enable" in pre[pre.index("disable"):last]:
                            bad("commits re-enabled early", "enable", n, "leaving leadership (%s): commits are enabled again before everything is sent" % what)
                        if pre.count("unsub") < 2 or "unsub" in pre[:last]:
                            bad("peers stay subscribed", "unsub", n, "leaving leadership (%s): not every peer is unsubscribed after the outstanding transactions are sent" % what)
                else:
                    if "send" in s and not was:
                        pass
                if new == "SEARCHING":
                    ctx.ok("commits stay off while searching after leadership", what)
                    if "enable" in gate:
                        bad("commits enabled", "searching", n, "changing %s enables commits" % what)
                else:
                    ctx.ok("commits are enabled again in any state but SEARCHING", what)
                    if not gate or gate[-1] != "enable":
                        bad("commits not enabled", "other", n, "changing %s leaves commits disabled" % what)
                if old == "FOLLOWING":
                    ctx.ok(R3, what)
                    if not has_order(s, "exittime", "notify", "join", "nothread", "state"):
                        bad("replication goes on", "join", n, "leaving FOLLOWING (%s): the replication thread is not told to exit, woken, joined and forgotten before the state changes (%s)" % (what, ", ".join(s)))
                    else:
                        j = s.index("join")
                        if "rearm" not in s[j:] or "rearm" in s[:j]:
                            bad("replication cannot restart", "rearm", n, "leaving FOLLOWING (%s): the exit time is not cleared after the thread has ended" % what)
                        if "drop" in s[:j]:
                            bad("replication queue", "drop", n, "leaving FOLLOWING (%s): queued transactions are dropped while the thread still runs" % what)
                if new == "LEADING":
                    ctx.ok(R4, what)
                    if not has_order(s, "pop", "state") or not has_order(s, "lastsent", "state") or "lastsent?" in s:
                        bad("start of leadership", "lastsent", n, "starting to lead (%s) without dropping old committed transactions and setting the last sent one to the current commit" % what)
                if S(new) < S("SUBSCRIBING") or old == "FOLLOWING":
                    ctx.ok(R5, what)
                    if "nolead" not in s:
                        bad("lead peer kept", "nolead", n, "changing %s keeps a lead peer" % what)
                elif "nolead" in s:
                    bad("lead peer lost", "nolead", n, "changing %s forgets the leader just chosen" % what)
    # what is left of the replication queue is not applied later
    left = "queued transactions are gone after leaving FOLLOWING"
    for new in ("SEARCHING",):
        def ev2(n, a, facts, x):
            a = events(n, a, facts, x)
            return a
        c = Cases(ctx, g, PEERS, lambda e, fr, gg: 1 if e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] == "size" and mutex_field_in(e["obj"], fr, gg) == NODE + "_replicateQueue"
                  else 0 if e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] == "empty" and mutex_field_in(e["obj"], fr, gg) == NODE + "_replicateQueue" else None, ev2)
        for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset({("env", "this._state", S("FOLLOWING")), ("env", newp, S(new)), ("env", "this._replicateThread", 7)})):
            if k == "exit":
                ctx.ok(left, new)
                if "drop" not in seq(t):
                    bad("replication queue kept", "keep", n, "leaving FOLLOWING keeps queued transactions, which are applied when the node follows again")
    # every place that stops following or leading goes through this function
    for f in p.fns.values():
        if f["q"] == fn or f.get("isctor"):
            continue
        for e in fn_exprs(f):
            t = e["x"] if is_assign(e) else e.get("obj") if e.get("k") == "call" and (e.get("op") == "=" or e.get("q", "").split("::")[-1] in ("store", "exchange")) else None
            t = strip(t) if t is not None else None
            if isinstance(t, dict) and t.get("k") == "mem" and t["q"] == NODE + "_state":
                ctx.bad("state store", f["q"], "elsewhere", "%s:%d" % (f["file"], e.get("l", f["l"])), "%s changes the node's state without _changeState" % f["q"])
    ctx.ok("only _changeState stores the state", fn)
    ctx.need(R1, 10)
    ctx.need(R2, 60)


def method_of(e, fr, g, d=0):
    """Method line (constant) of a message expression."""
    o, f = origin(e, fr, g)
    if not isinstance(o, dict) or d > 6:
        return None
    if o.get("k") == "var" and o.get("id"):
        kind, v, f2 = g.lookup(o["id"], f)
        if kind == "env":
            return method_of(v[0], v[1], g, d + 1)
        if v and v.get("decl") and isinstance(v["decl"].get("init"), dict):
            return method_of(v["decl"]["init"], f2, g, d + 1)
        return None
    if o.get("k") == "call" and o.get("q") in (NODE + "_addPeerHeaders",) and o.get("a"):
        return method_of(o["a"][0], f, g, d + 1)
    s = [x for x in walk(o) if x.get("k") == "str"] if o.get("k") in ("ctor", "init") else []
    return s[0]["v"] if s else None


# ------------------------------------------------------------------ messages
ONMSG = NODE + "_onMESSAGE"


def method_leaf(method, inner=None):
    """Decides comparisons of the message's method line with constants."""
    def leaf(e, fr, g):
        if e.get("k") == "call" and (e.get("q") == "SIEquals" or e.get("op") in ("==", "!=")):
            a = ([e["obj"]] if "obj" in e and e.get("op") else []) + e.get("a", [])
            if len(a) == 2:
                for u, v in ((a[0], a[1]), (a[1], a[0])):
                    o, f = origin(u, fr, g)
                    c = const_of(v)
                    if isinstance(o, dict) and o.get("k") == "mem" and o.get("q") == "SData::methodLine" and c is not None:
                        r = c[2:].strip('"').lower() == method.lower()
                        return int(r != (e.get("op") == "!="))
        return inner(e, fr, g) if inner else None
    return leaf


def handled_methods(g, fn=None):
    """Constants the message's method line is compared with."""
    out = {}
    for n in g.nodes:
        for e in walk(n.e) if n.k == "branch" else ():
            if e.get("k") == "call" and (e.get("q") == "SIEquals" or e.get("op") in ("==", "!=")):
                a = ([e["obj"]] if "obj" in e and e.get("op") else []) + e.get("a", [])
                for u, v in ((a[0], a[1]), (a[1], a[0])) if len(a) == 2 else ():
                    o, f = origin(u, n.fr, g)
                    c = const_of(v)
                    if isinstance(o, dict) and o.get("k") == "mem" and o.get("q") == "SData::methodLine" and c is not None:
                        out.setdefault(c[2:].strip('"'), n)
    return out


PEER_SENDS = {NODE + "_sendToPeer", NODE + "_sendToAllPeers", PEER + "sendMessage"}


@prop("C13")
def forked_peers(ctx):
    p = ctx.p
    # ---- nothing is sent to a forked peer
    r = "nothing but PING and PONG is sent to a forked peer"
    for nm in ("_sendToPeer", "_sendToAllPeers"):
        g = ctx.graph(NODE + nm, helpers)

        def ev(n, a, facts, x):
            if n.k in ("call", "icall") and n.q == PEER + "sendMessage":
                a = push(a, "sent:%s" % value(n.e["obj"], n.fr, x.g, a))
            return a
        c = Cases(ctx, g, PEERS, None, ev)
        if nm == "_sendToPeer":
            pp = pv(g, 0)
            for fk in (0, 1):
                for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset({("env", pp, 100), ("env", pp + ".forked", fk)})):
                    if k == "exit":
                        ctx.ok(r, "%s forked=%d" % (nm, fk))
                        want = () if fk else ("sent:100",)
                        if seq(t) != want:
                            ctx.bad("forked peer", NODE + nm, "send %d" % fk, n.where(), "_sendToPeer sends %d messages to a peer that %s" % (len(seq(t)), "has forked" if fk else "has not forked"))
        else:
            sp = pv(g, 1)
            for only in (0, 1):
                for pop in pops({"forked": [0, 1], "subscribed": [0, 1], "loggedIn": [0, 1], "permaFollower": [0, 1]}, 2, ids=True, keep=lambda d: d["loggedIn"] or not d["subscribed"]):
                    for k, n, t, f in c.population(pop, [g.entry], frozenset(), frozenset({("env", sp, only)})):
                        if k != "exit":
                            continue
                        ctx.ok(r, "%s subscribedOnly=%d" % (nm, only))
                        want = tuple("sent:%d" % d[""] for d in map(dict, pop) if not d["forked"] and (d["subscribed"] or not only))
                        if sorted(seq(t)) != sorted(want) and not foreign(c):
                            ctx.bad("forked peer" if any(dict(e)["forked"] for e in pop) else "recipients", NODE + nm, "only %d" % only, n.where() if n.k != "exit" else "%s:%d" % (g.root_fn["file"], g.root_fn["l"]),
                                    "a message for %s goes to %d peers instead of %d with peers %s" % ("subscribed peers" if only else "all peers", len(seq(t)), len(want), show(pop)))
    direct = "messages are sent through the functions that skip forked peers"
    for f in p.fns.values():
        for e in fn_exprs(f):
            if e.get("k") == "call" and e.get("q") == PEER + "sendMessage":
                o = p.outer(f)["q"]
                if o in (NODE + "_sendToPeer", NODE + "_sendToAllPeers"):
                    continue
                gg = ctx.graph(f, lambda *z: False)
                for n in gg.nodes:
                    if n.k == "call" and n.e is e:
                        m = method_of(e["a"][0], n.fr, gg)
                        ctx.ok(direct, "%s: %s" % (o, m))
                        if m not in ("PING", "PONG"):
                            ctx.bad("forked peer", o, "direct %s" % m, n.where(), "%s sends %s to a peer directly, whether it has forked or not" % (o, m))
    # ---- a forked peer's messages are ignored
    g = ctx.graph(ONMSG, fresh)
    pp = pv(g, 0)
    ms = handled_methods(g)
    ctx.require(len(ms) >= 8, "only %d message methods found in _onMESSAGE" % len(ms))
    mutating = {f["q"] for f in p.methods_of("SQLiteNode") if not f.get("const") and not f.get("static")} | {q for q in (PEER + "setCommit", PEER + "shutdownSocket", PEER + "reset", PEER + "sendMessage", PEER + "setSocket")}
    r = "a forked peer's messages have no effect"

    def effects(n, a, facts, x):
        if n.k in ("call", "icall") and (n.q in mutating or n.q.startswith("SQLiteServer::")):
            a = push(a, n.q)
        for f, path, c, v, y in stores(n, x.g):
            if f.startswith(PEER) or f.startswith(NODE):
                a = push(a, f)
        return a
    for m in sorted(ms) + ["SOMETHING_ELSE"]:
        if m in ("PING", "PONG"):
            continue
        c = Cases(ctx, g, PEERS, method_leaf(m), effects)
        for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset({("env", pp, 100), ("env", pp + ".forked", 1), ("env", pp + ".loggedIn", 1)})):
            ctx.ok(r, m)
            if seq(t) and k in ("exit", "throw"):
                ctx.bad("message of a forked peer", ONMSG, m, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "a %s from a forked peer still causes %s" % (m, ", ".join(sorted(set(seq(t))))))
    # ---- marking
    r = "marking a peer as forked always checks whether we lost the cluster"
    marks = 0
    for f in p.fns.values():
        if f["file"].startswith("sqlitecluster/") and not f.get("isctor") and f.get("c") != "SQLitePeer":
            if any(e.get("k") in ("call", "bin") and touches_forked(e) for e in fn_exprs(f)):
                gg = ctx.graph(f, lambda *z: False)

                def mk(n, a, facts, x, f=f):
                    for fld, path, c, v, y in stores(n, x.g):
                        if fld == PEER + "forked":
                            if c == "c:true":
                                a = a | {("marked", n.i)}
                                ctx.ok(r, n.where())
                            else:
                                ctx.bad("forked flag", f["q"], "cleared", n.where(), "%s clears a peer's forked flag while it stays connected" % f["q"])
                    if n.k == "call" and n.q == NODE + "_dieIfForkedFromCluster":
                        a = frozenset(t for t in a if t[0] != "marked")
                    if n.k == "catch":
                        a = frozenset(t for t in a if t[0] != "marked")
                    if n.k == "exit" or n.k == "throw" and n.fr is x.g.root:
                        for t in a:
                            if t[0] == "marked":
                                ctx.bad("fork check", f["q"], "missing", x.g.nodes[t[1]].where(), "%s marks a peer as forked and can go on without checking whether we have forked from the cluster" % f["q"], x.trace())
                    return a
                ctx.explore(gg, Flow(mk))
    ctx.need(r, 3)
    # ---- a login with another hash never logs in
    r = "a peer whose commit differs from ours is marked as forked and not logged in"
    gl = g

    ours = field_leaf({}, ours=10)
    for same in (0, 1):
        for behind in (-3, 0, 1):
            def inner(e, fr, gg):
                if e.get("k") == "call" and e.get("op") in ("==", "!="):
                    a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
                    if len(a) == 2 and all(strip(z).get("k") == "var" and re.search("string", strip(z).get("t", "")) for z in a):
                        return int(bool(same) == (e["op"] == "=="))
                return ours(e, fr, gg)

            def login(n, a, facts, x, behind=behind):
                for f, path, c, v, y in stores(n, x.g):
                    if f in (PEER + "loggedIn", PEER + "forked") and path.startswith(pp):
                        a = push(a, f.split("::")[-1] + "=" + str(c))
                if n.k in ("call", "icall") and n.q == PEER + "getCommit" and len(call_args(n)) == 2:
                    a = env_set(env_set(a, x.g.canon(call_args(n)[0], n.fr), 10 + behind), x.g.canon(call_args(n)[1], n.fr) + ".size()", 1)
                if n.k == "call" and n.q == NODE + "_sendToPeer" and method_of(call_args(n)[1], n.fr, x.g) == "FORKED" and origin_param(call_args(n)[0], n.fr, x.g) == 0:
                    a = push(a, "told")
                if n.k == "catch" and n.fr is x.g.root or n.k in ("call", "icall") and n.q == NODE + "_reconnectPeer":
                    a = push(a, "caught")
                return a
            c = Cases(ctx, gl, PEERS, method_leaf("LOGIN", inner), login)
            for k, n, t, f in c.population((), [gl.entry], frozenset(), frozenset({("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", 0), ("env", pp + ".commitCount", 10 + behind)})):
                s = seq(t)
                if k != "exit" or "caught" in s:
                    continue
                ctx.ok(r, "LOGIN with %s commit and %s hash" % ("an unknown" if behind > 0 else "an older" if behind else "the latest", "the same" if same else "another"))
                if behind <= 0 and not same and ("loggedIn=c:true" in s or "forked=c:true" not in s):
                    ctx.bad("login of a forked peer", ONMSG, "login", "%s:%d" % (gl.root_fn["file"], gl.root_fn["l"]), "a peer that has another hash for a commit we have is %s" % ("logged in" if "loggedIn=c:true" in s else "not marked as forked"))
                if behind <= 0 and not same and not has_order(s, "told", "forked=c:true"):
                    ctx.bad("login of a forked peer", ONMSG, "told", "%s:%d" % (gl.root_fn["file"], gl.root_fn["l"]), "a peer that has forked is not told before it is marked (nothing is sent to it afterwards)")
                if (behind > 0 or same) and "told" in s:
                    ctx.bad("login of a good peer", ONMSG, "told", "%s:%d" % (gl.root_fn["file"], gl.root_fn["l"]), "a peer that agrees with us is told that it has forked")
                if (behind > 0 or same) and "forked=c:true" in s:
                    ctx.bad("login of a good peer", ONMSG, "login", "%s:%d" % (gl.root_fn["file"], gl.root_fn["l"]), "a peer that agrees with us is marked as forked")
    ctx.need(r, 3)
    # ---- a peer that says it has forked from us is neither leader nor synchronization peer any longer
    r = "a node leaves a leader or synchronization peer that has forked from it"

    def fev(n, a, facts, x):
        for f, path, c, v, y in stores(n, x.g):
            if f in (NODE + "_leadPeer", NODE + "_syncPeer"):
                a = env_set(push(a, f + "=" + str(c)), "this." + f.split("::")[-1], 0 if c == "c:null" else None)
        if n.k == "call" and n.q == NODE + "_changeState":
            v = value(call_args(n)[0], n.fr, x.g, a)
            a = push(a, "go:%s" % v)
            a = env_set(a, "this._state", v)
        if n.k == "catch" and n.fr is x.g.root:
            a = push(a, "caught")
        return a
    for st in ("SYNCHRONIZING", "WAITING", "SUBSCRIBING", "FOLLOWING"):
        for lead in (0, 100, 101):
            for sync in (0, 100, 101):
                if lead and st in ("SYNCHRONIZING", "WAITING") or sync and st != "SYNCHRONIZING" and sync != 100:
                    continue
                c = Cases(ctx, gl, PEERS, method_leaf("FORKED"), fev)
                t0 = frozenset({("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", 1), ("env", "this._state", S(st)), ("env", "this._leadPeer", lead), ("env", "this._syncPeer", sync)})
                for k, n, t, f in c.population((), [gl.entry], frozenset(), t0):
                    s = seq(t)
                    if k != "exit" or "caught" in s:
                        continue
                    what = "%s, %s leader, %s synchronization peer" % (st, "from our" if lead == 100 else "not our", "from our" if sync == 100 else "not our")
                    ctx.ok(r, what)
                    where = "%s:%d" % (gl.root_fn["file"], gl.root_fn["l"])
                    if lead == 100 and "go:%d" % S("SEARCHING") not in s or sync == 100 and (NODE + "_syncPeer=c:null" not in s or st == "SYNCHRONIZING" and "go:%d" % S("SEARCHING") not in s):
                        ctx.bad("forked leader", ONMSG, "kept", where, "a FORKED received when %s does not make us drop that peer and search" % what)
                    if lead != 100 and sync != 100 and s:
                        ctx.bad("forked bystander", ONMSG, "dropped", where, "a FORKED received when %s changes our leader, synchronization peer or state" % what)
    ctx.need(r, 8)


def touches_forked(e):
    t = e.get("x") if e.get("k") == "bin" and is_assign(e) else e.get("obj") if e.get("op") == "=" or e.get("q", "").endswith("::store") else None
    t = strip(t) if t is not None else None
    return isinstance(t, dict) and t.get("k") == "mem" and t["q"] == PEER + "forked"


@prop("C14")
def standup_responses(ctx):
    p = ctx.p
    g = ctx.graph(NODE + "_sendStandupResponse", helpers)
    fn = NODE + "_sendStandupResponse"
    pp = pv(g, 0)
    c0 = None

    def ev(n, a, facts, x):
        if n.k in ("call", "icall"):
            q, e = n.q, n.e
            if e.get("k") == "call" and e.get("op") == "=" and "obj" in e:
                o = strip(e["obj"])
                if isinstance(o, dict) and o.get("k") == "call" and o.get("q", "").startswith("SData::operator[]") and o.get("a"):
                    h = const_of(o["a"][0])
                    v = const_of(e["a"][0])
                    if h == 'c:"Response"':
                        a = frozenset(t for t in a if t[0] != "resp") | {("resp", v)}
                    elif h == 'c:"StateChangeCount"':
                        s = strip(e["a"][0])
                        src = [z for z in walk(s) if z.get("k") == "call" and z.get("q", "").startswith("SData::operator[]") and z.get("a") and const_of(z["a"][0]) == 'c:"StateChangeCount"']
                        okk = bool(src) and origin_param(src[0].get("obj"), n.fr, x.g) == 1
                        a = a | {("echo", okk)}
            if q == NODE + "_sendToPeer":
                to = value(call_args(n)[0], n.fr, x.g, a)
                m = method_of(call_args(n)[1], n.fr, x.g)
                r = [t[1] for t in a if t[0] == "resp"]
                a = push(a, "%s to %s: %s%s" % (m, to, r[0] if r else None, " echoed" if ("echo", True) in a else ""))
            if q == NODE + "_changeState":
                v = value(call_args(n)[0], n.fr, x.g, a)
                a = push(a, "go:%s" % v)
                if v is not None:
                    a = env_set(a, "this._state", v)
        return a
    R1 = "every standup request gets one answer that echoes its attempt"
    R2 = "approval only when nobody else leads and the peer may lead"
    yes, no = 'c:"approve"', 'c:"deny"'
    for st in STATES:
        for theirs in (4, 5, 7):
            for perma in (0, 1):
                for sub in (0, 1):
                    others = [[]] + [[s] for s in STATES] + [["WAITING", s] for s in LEADISH]
                    if st in LEADISH and (perma or theirs == 7):
                        others = [[]]
                    for oth in others:
                        def leaf(e, fr, gg, sub=sub):
                            if e.get("k") == "call" and e.get("q") == NODE + "_majoritySubscribed":
                                return sub
                            return None
                        c = Cases(ctx, g, PEERS, leaf, ev)
                        base = dict(permaFollower=0, loggedIn=1, forked=0, subscribed=sub, priority=theirs)
                        els = [tuple(sorted(dict(base, permaFollower=perma, state=S("STANDINGUP"), **{"": 100}).items()))]
                        els += [tuple(sorted(dict(base, state=S(s), priority=3, **{"": 101 + i}).items())) for i, s in enumerate(oth)]
                        if sub and st not in LEADISH:
                            continue
                        t0 = frozenset({("env", pp if k == "" else pp + "." + k, v) for k, v in els[0]} | {("env", "this._state", S(st)), ("env", "this._priority", 5)})
                        for k, n, t, f in c.population(tuple(els), [g.entry], frozenset(), t0):
                            if k != "exit":
                                continue
                            what = "we are %s, the peer has %s priority%s, others %s" % (st, {7: "higher", 5: "the same", 4: "lower"}[theirs], " and is a permafollower" if perma else "", ",".join(oth) or "none")
                            sent = [e for e in seq(t) if not e.startswith("go:")]
                            gone = [e for e in seq(t) if e.startswith("go:")]
                            where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
                            ctx.ok(R1, what)
                            if len(sent) != 1 or not sent[0].startswith("STANDUP_RESPONSE to 100:") or not sent[0].endswith(" echoed"):
                                ctx.bad("standup answer", fn, "one answer", where, "when %s, the request is answered with %s instead of one STANDUP_RESPONSE that echoes its StateChangeCount" % (what, sent or "nothing"))
                                continue
                            resp = sent[0].split(": ", 1)[1].replace(" echoed", "")
                            ctx.ok(R2, what)
                            busy = any(s in LEADISH for s in oth)
                            if st in LEADISH or perma or busy:
                                if resp == yes or (resp != no and not (st in LEADISH and theirs == 7 and not perma)):
                                    ctx.bad("standup approval", fn, "deny", where, "when %s, the standup request is answered with %s instead of a denial" % (what, resp))
                            elif resp != yes and not foreign(c):
                                ctx.bad("standup approval", fn, "approve", where, "when %s, the standup request is answered with %s instead of an approval: nobody can lead" % (what, resp))
                            want = []
                            if st in LEADISH and not perma:
                                if theirs == 7:
                                    want = {"STANDINGUP": ["SEARCHING"], "LEADING": ["STANDINGDOWN"]}.get(st, [])
                                elif not sub:
                                    want = ["SEARCHING"]
                            if gone != ["go:%d" % S(w) for w in want]:
                                ctx.bad("standup contest", fn, "state", where, "when %s, the node changes state to %s instead of %s" % (what, gone or "nothing", want or "nothing"))
    # ---- receiving answers
    g = ctx.graph(ONMSG, fresh)
    pp = pv(g, 0)
    R3 = "only answers to the current attempt count"

    def rev(n, a, facts, x):
        for f, path, c, v, y in stores(n, x.g):
            if f == PEER + "standupResponse":
                a = push(a, "%s %s" % ("own" if path.startswith(pp) else "other", c))
        return a
    for st in STATES:
        for cur in (0, 1):
            for ans in ("approve", "deny", "nonsense"):
                def inner(e, fr, gg):
                    if e.get("k") == "bin" and e["op"] in ("==", "!="):
                        for u, v in ((e["x"], e["y"]), (e["y"], e["x"])):
                            o, f = origin(u, fr, gg)
                            if isinstance(o, dict) and o.get("k") == "mem" and o["q"] == NODE + "_stateChangeCount" and any(z.get("k") == "str" and z["v"] == "StateChangeCount" for z in mentions(v, fr, gg)):
                                return int(bool(cur) == (e["op"] == "=="))
                    if e.get("k") == "call" and e.get("q") == "SIEquals" and len(e.get("a", ())) == 2:
                        for u, v in ((e["a"][0], e["a"][1]), (e["a"][1], e["a"][0])):
                            if any(z.get("k") == "str" and z["v"] == "Response" for z in walk(strip(u))) and const_of(v):
                                return int(const_of(v)[2:].strip('"').lower() == ans)
                    return None
                c = Cases(ctx, g, PEERS, method_leaf("STANDUP_RESPONSE", inner), rev)
                res = set()
                for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset({("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", 1), ("env", "this._state", S(st))})):
                    if k == "exit":
                        res.add(seq(t))
                what = "%s, %s attempt, %s" % (st, "current" if cur else "old", ans)
                ctx.ok(R3, what)
                where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
                if st != "STANDINGUP" or not cur:
                    if any(res_ for res_ in res):
                        ctx.bad("stale standup response", ONMSG, "stale", where, "a STANDUP_RESPONSE received when %s is recorded" % what)
                else:
                    want = "own c:SQLitePeer::Response::" + ("APPROVE" if ans == "approve" else "DENY")
                    got = {e for s in res for e in s}
                    if got != {want}:
                        ctx.bad("standup response", ONMSG, "record", where, "a STANDUP_RESPONSE (%s) is recorded as %s instead of %s" % (what, ", ".join(sorted(got)) or "nothing", want))
    R4 = "a peer that announces it stands up is answered"
    for m, why in (("STATE", "a new state"), ("LOGIN", "logging in")):
        def aev(n, a, facts, x):
            if n.k == "call" and n.q == NODE + "_sendStandupResponse":
                a = push(a, "answer %s" % (value(call_args(n)[0], n.fr, x.g, a) == 100))
            if n.k in ("call", "assign"):
                for f, path, c, v, y in stores(n, x.g):
                    if f == PEER + "state" and path.startswith(pp):
                        a = env_set(frozenset(a | {("set",)}), pp + ".state", S("STANDINGUP") if stands else S("WAITING"))
                    if f == PEER + "loggedIn":
                        a = a | {("in", c)}
                    if f == PEER + "forked":
                        a = a | {("fork", c)}
            return a
        for stands in (0, 1):
            def inner(e, fr, gg):
                return (S("STANDINGUP") if stands else S("WAITING")) if e.get("k") == "call" and e.get("q") == NODE + "stateFromName" else None
            c = Cases(ctx, g, PEERS, method_leaf(m, inner), aev)
            t0 = frozenset({("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", int(m == "STATE")), ("env", pp + ".state", S("SEARCHING"))})
            for k, n, t, f in c.population((), [g.entry], frozenset(), t0):
                if k != "exit" or ("set",) not in t or ("fork", "c:true") in t:
                    continue
                ctx.ok(R4, "%s %s" % (m, "STANDINGUP" if stands else "WAITING"))
                s = seq(t)
                if s != (("answer True",) if stands else ()):
                    ctx.bad("standup request", ONMSG, m, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "a peer %s as %s is answered %d times" % (why, "STANDINGUP" if stands else "WAITING", len(s)))
    ctx.need(R4, 3)


def mentions(e, fr, g, d=0):
    """Expressions occurring in e and, for a local, in what it is initialised with."""
    for z in walk(strip(e)):
        yield z
        if z.get("k") == "var" and z.get("id") and d < 4:
            kind, v, f2 = g.lookup(z["id"], fr)
            if kind == "env":
                yield from mentions(v[0], v[1], g, d + 1)
            elif v and v.get("decl") and isinstance(v["decl"].get("init"), dict):
                yield from mentions(v["decl"]["init"], f2, g, d + 1)


def origin_param(e, fr, g):
    """Index of the root function's parameter an expression denotes, or None."""
    o, f = origin(e, fr, g)
    if isinstance(o, dict) and o.get("k") == "var":
        for i, p in enumerate(g.root_fn["p"]):
            if p["id"] == o.get("id"):
                return i
    return None


# ------------------------------------------------------------------ replication
COMMIT, PREPARE, WRITE, BEGIN, ROLLBACK = "SQLite::commit", "SQLite::prepare", "SQLite::writeUnmodified", "SQLite::beginTransaction", "SQLite::rollback"
SHEAD = "SData::operator[]"


def plain(e, fr, g, d=0):
    """The call or literal a value plainly comes from, following locals, parameters, casts and copies (not looking into functions)."""
    e = strip(e)
    if not isinstance(e, dict) or d > 12:
        return None, fr
    if e.get("k") == "var" and e.get("id"):
        kind, v, f2 = g.lookup(e["id"], fr)
        if kind == "env":
            return plain(v[0], v[1], g, d + 1)
        if v and v.get("assigned"):
            return e, f2
        if v and v.get("decl") and isinstance(v["decl"].get("init"), dict):
            i = strip(v["decl"]["init"])
            if i.get("k") == "ctor":
                ar = [a for a in i.get("a", ()) if a.get("k") != "defarg"]
                if not ar or re.match(r"(const )?SData$", v["decl"].get("t", "")) and not re.search(r"\bSData\b", strip(ar[0]).get("t", "")):
                    return e, f2
            return plain(i, f2, g, d + 1)
        return e, fr
    if e.get("k") == "ctor" and len(e.get("a", ())) == 1 and strip(e["a"][0]).get("k") != "str":
        return plain(e["a"][0], fr, g, d + 1)
    if e.get("k") == "call" and e.get("q") in ("std::move", "std::forward") and e.get("a"):
        return plain(e["a"][0], fr, g, d + 1)
    return e, fr


def header_read(e, fr, g):
    """(header, canon of the message) when a value is plainly a header of a message."""
    o, f = plain(e, fr, g)
    if isinstance(o, dict) and o.get("k") == "call" and o.get("q") in ("SToUInt64", "SToInt64", "SToInt", "std::stoull", "std::stoul") and o.get("a"):
        o, f = plain(o["a"][0], f, g)
    if isinstance(o, dict) and o.get("k") == "call" and "obj" in o and o.get("a") and (o.get("q", "").startswith(SHEAD) or re.match(r"SData::calc", o.get("q", ""))):
        h = const_of(o["a"][0])
        if h is not None:
            return h[2:].strip('"'), msg_canon(o["obj"], f, g)
    return None


def msg_canon(e, fr, g):
    e, f = plain(e, fr, g)
    return g.canon(e, f) if isinstance(e, dict) else None


def apply_helpers(h, e, fr):
    return h.get("c") == "SQLiteNode" and h["q"] not in EFFECTS and h.get("acc") != 0 or h["q"] in (NODE + "_recvSynchronize",)


def out_vars(g, q, i):
    """Locals whose address is given to calls of q (argument i): what the function stores its result in."""
    out = set()
    for n in g.nodes:
        if n.k == "call" and n.q == q and len(call_args(n)) > i:
            a = strip(call_args(n)[i])
            if isinstance(a, dict) and a.get("k") == "un" and a["op"] == "&":
                out.add(g.canon(a["e"], n.fr))
    return out


class Apply:
    """Scenarios of applying one replicated commit: outcome of every step as given by `sc`."""

    def __init__(self, ctx, g, count, hash_, sc):
        self.g, self.count, self.hash, self.sc = g, count, hash_, sc
        self.ours = out_vars(g, PREPARE, 1)

    def kind(self, e, fr):
        """'theirs' / 'ours' for a string that is the announced / the computed hash."""
        h = header_read(e, fr, self.g)
        if h and h[0] == self.hash:
            return "theirs"
        o, f = plain(e, fr, self.g)
        if isinstance(o, dict) and (o.get("k") == "call" and o.get("q") == "SQLite::getUncommittedHash" or o.get("k") in ("var", "mem") and self.g.canon(o, f) in self.ours):
            return "ours"
        return None

    def leaf(self, e, fr, g):
        sc, k = self.sc, e.get("k")
        if k == "call":
            q = e.get("q", "")
            if q in sc:
                return sc[q]
            if q in ("SQLite::getCommitCount", NODE + "getCommitCount"):
                return 10
            if e.get("op") in ("==", "!=") and not re.search("iterator", q):
                a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
                if len(a) == 2 and {self.kind(x, fr) for x in a} == {"ours", "theirs"}:
                    return int(bool(sc["same"]) == (e["op"] == "=="))
            if q == "SIEquals" and len(e.get("a", ())) == 2:
                for u, v in ((e["a"][0], e["a"][1]), (e["a"][1], e["a"][0])):
                    o, f = origin(u, fr, g)
                    c = const_of(v)
                    if isinstance(o, dict) and o.get("k") == "mem" and o.get("q") == "SData::methodLine" and c is not None:
                        return int(c[2:].strip('"') == sc["method"])
        if k in ("var", "call", "cast"):
            h = header_read(e, fr, g)
            if h and h[0] == self.count and not is_string(strip(e).get("t", "")):
                return sc["count"]
        if k == "mem" and e.get("q") == NODE + "_state":
            return sc.get("state")
        if k == "mem" and e.get("q") == "SQLite::SharedData::commitCount":
            return 10
        if k in ("var", "call") and origin_field(e, fr, g) == NODE + "_state":
            return sc.get("state")
        return None


@prop("C15")
def apply_replicated(ctx):
    p = ctx.p
    G = {"receiving TRANSACTION": (NODE + "_replicate", "NewCount", "NewHash", "TRANSACTION"), "synchronizing": (NODE + "_recvSynchronize", "CommitIndex", "Hash", "COMMIT")}
    R1 = "a replicated commit is committed only as the next commit, with the announced hash, after it was written and prepared"
    R2 = "a replicated commit that checks out is committed"
    R3 = "what is written is the content of the message whose number and hash are checked, unmodified"
    for what, (fn, cnt, hsh, method) in G.items():
        g = ctx.graph(fn, apply_helpers)
        where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
        commits = [n for n in g.nodes if n.k == "call" and n.q == COMMIT]
        ctx.require(commits, "no commit found in %s" % fn)
        base = {BEGIN: 1, WRITE: 1, PREPARE: 1, "same": 1, "count": 11, "method": method, "state": S("FOLLOWING")}
        cases = [("everything checks out", {})] + [("the announced number is %s" % w, {"count": v}) for w, v in (("already committed", 10), ("older", 3), ("beyond the next", 12))]
        cases += [("the hash is another", {"same": 0}), ("the write fails", {WRITE: 0}), ("prepare fails", {PREPARE: 0}), ("the transaction cannot begin", {BEGIN: 0}), ("it is another kind of message", {"method": "OTHER"})]
        if method == "TRANSACTION":
            cases += [("we are %s" % s, {"state": S(s)}) for s in STATES if s != "FOLLOWING"]
        written = {n.i for n in g.nodes if n.k == "call" and n.q in (BEGIN, WRITE, PREPARE)}
        for name, d in cases:
            A = Apply(ctx, g, cnt, hsh, dict(base, **d))

            def ev(n, a, facts, x):
                if n.k == "call" and n.q in (BEGIN, WRITE, PREPARE, ROLLBACK):
                    a = push(a, n.q)
                if n.k == "call" and n.q == COMMIT:
                    return ("end", "commit", a)
                return a
            c = Cases(ctx, g, PEERS, A.leaf, ev)
            got = False
            for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset()):
                if k != "commit":
                    continue
                got = True
                s = seq(t)
                if not d:
                    ctx.ok(R1, what)
                    if not has_order(s, BEGIN, WRITE, PREPARE) or ROLLBACK in s:
                        ctx.bad("commit of an unprepared transaction", fn, "order", n.where(), "%s, the commit is reached after %s instead of begin, write and prepare" % (what, ", ".join(s) or "nothing"))
                else:
                    ctx.bad("commit that does not check out", fn, name, n.where(), "%s, the transaction is committed although %s" % (what, name))
            if d:
                ctx.ok(R1, "%s: %s" % (what, name))
            else:
                ctx.ok(R2, what)
                if not got:
                    ctx.bad("valid commit refused", fn, "refused", where, "%s, no transaction is ever committed although everything checks out" % what)
        # same message
        msgs = {header_read(a, n.fr, g)[1]: n for n in g.nodes if isinstance(n.e, dict) and n.k in ("call", "branch", "decl") for a in walk(n.e) if a.get("k") == "call" and header_read(a, n.fr, g) and header_read(a, n.fr, g)[0] in (cnt, hsh)}
        for n in g.nodes:
            if n.k == "call" and n.q == WRITE:
                o, f = plain(call_args(n)[0], n.fr, g)
                if isinstance(o, dict) and o.get("k") == "call" and o.get("q") == "BedrockPlugin_Compression::decompress":
                    o, f = plain(o["a"][0], f, g)
                ok_ = isinstance(o, dict) and o.get("k") == "mem" and o.get("q") == "SData::content"
                ctx.ok(R3, n.where())
                src = msg_canon(o["b"], f, g) if ok_ else None
                if ok_ and msgs and set(msgs) != {src}:
                    ctx.bad("other content", fn, "content", n.where(), "%s, what is written is the content of another message than the one whose number and hash are checked" % what)
                elif not ok_:
                    if isinstance(o, dict) and o.get("k") in ("call", "bin") and any(e.get("q") == "SData::content" for e in walk(o)):
                        ctx.bad("modified content", fn, "content", n.where(), "%s, the content of the message is modified before it is written" % what)
                    else:
                        ctx.notes.append("what %s writes at %s is not traced to the message" % (fn, n.where()))
    for q in (NODE + "_replicate", NODE + "_recvSynchronize", NODE + "_handleBeginTransaction"):
        if q in p.byq:
            for e in (e for f in p.byq[q] for e in fn_exprs(f)):
                if e.get("k") == "call" and e.get("q") in ("SQLite::write", "SQLite::writeIdempotent"):
                    ctx.bad("rewritten replication", q, e["q"], "%s:%d" % (p.byq[q][0]["file"], e.get("l", 0)), "%s writes replicated queries through %s, which may change them" % (q, e["q"]))
    # ---- a failed commit ends replication
    R7 = "nothing more is applied after a commit that failed"
    for what, (fn, cnt, hsh, method) in G.items():
        g = ctx.graph(fn, apply_helpers)
        for rc in (1, 5, 517):
            A = Apply(ctx, g, cnt, hsh, {BEGIN: 1, WRITE: 1, PREPARE: 1, "same": 1, "count": 11, "method": method, "state": S("FOLLOWING"), COMMIT: rc})

            def ev(n, a, facts, x):
                if n.k == "call" and n.q == COMMIT:
                    return a | {("failed", n.i)}
                if any(t[0] == "failed" for t in a) and (n.k == "call" and n.q in (BEGIN, WRITE, PREPARE) or n.k == "exit"):
                    return ("end", "goes on", a)
                return a
            c = Cases(ctx, g, PEERS, A.leaf, ev)
            ends = c.population((), [g.entry], frozenset(), frozenset())
            ctx.ok(R7, "%s, commit returns %d" % (what, rc))
            for k, n, t, f in ends:
                if k == "goes on":
                    ctx.bad("failed commit ignored", fn, str(rc), g.nodes[[z[1] for z in t if z[0] == "failed"][0]].where(), "%s, the next commit is applied (or the work succeeds) after a commit that failed with %d" % (what, rc))
    # ---- a failed synchronization leaves nothing behind, and all the promised commits are there
    R4 = "a synchronization ends with all promised commits, or fails and leaves no transaction open"
    fn = NODE + "_recvSynchronize"
    g = ctx.graph(fn, apply_helpers)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    for promised in (0, 1, 2):
        sc = {BEGIN: 1, WRITE: 1, PREPARE: 1, "same": 1, "count": 11, "method": "COMMIT", COMMIT: 0}
        A = Apply(ctx, g, "CommitIndex", "Hash", sc)

        def leaf(e, fr, gg, A=A, promised=promised):
            if e.get("k") == "call" and (header_read(e, fr, gg) or ("",))[0] == "NumCommits":
                return promised
            return A.leaf(e, fr, gg)

        def ev(n, a, facts, x):
            if n.k == "call" and n.q == COMMIT:
                c = [t[1] for t in a if t[0] == "n"] or [0]
                if c[0] >= 3:
                    return STOP
                a = frozenset(t for t in a if t[0] not in ("n", "open")) | {("n", c[0] + 1)}
            if n.k == "throw" and n.fr is x.g.root:
                return ("end", "fail", a)
            return a
        c = Cases(ctx, g, PEERS, leaf, ev)
        done = {([t[1] for t in t_ if t[0] == "n"] or [0])[0] for k, n, t_, f in c.population((), [g.entry], frozenset(), frozenset()) if k == "exit"}
        ctx.ok(R4, "NumCommits=%d" % promised)
        for k in sorted(done):
            if k != promised:
                ctx.bad("promised commits", fn, "count", where, "a synchronization that promises %d commits succeeds after %d" % (promised, k))

    for outcome in (0, 1):
        def tx(n, a, facts, x):
            if n.k == "call" and n.q == ROLLBACK:
                a = frozenset()
            if n.k == "unwind" and a and n.x == frozenset(["*"]):
                a = a | {("unknown",)}
            if n.k == "catch":
                a = a - {("unknown",)}
            if n.k in ("exit", "excexit") and a and ("unknown",) not in a:
                ctx.bad("transaction left open", fn, n.k, where, "_recvSynchronize can %s with its transaction still open" % ("return" if n.k == "exit" else "fail"), x.trace())
            return a

        def tl(e, fr, gg):
            return {BEGIN: 1, COMMIT: outcome}.get(e.get("q")) if e.get("k") == "call" else None

        def te(n, lab, m, a, facts, x):
            if n.k == "call" and lab != "exc":
                if n.q == BEGIN:
                    a = frozenset({("open",)})
                if n.q == COMMIT and outcome == 0:
                    a = frozenset()
            if n.k == "branch" and lab in ("T", "F"):
                v = value(n.e, n.fr, x.g, (), tl)
                if v is not None and bool(v) != (lab == "T"):
                    return STOP
            return a
        ctx.explore(g, Flow(tx, None, frozenset(), te))
        ctx.ok(R4, "commit %s in %s" % ("fails" if outcome else "succeeds", fn))
    # ---- callers
    R5 = "peers' commits are applied only from the sync peer when SYNCHRONIZING and from the leader when SUBSCRIBING or FOLLOWING"
    g = ctx.graph(ONMSG, fresh)
    pp = pv(g, 0)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    for m, who, st0 in (("SYNCHRONIZE_RESPONSE", "_syncPeer", "SYNCHRONIZING"), ("SUBSCRIPTION_APPROVED", "_leadPeer", "SUBSCRIBING"), ("TRANSACTION", None, "FOLLOWING"), ("COMMIT", None, None), ("STATE", None, None), ("LOGIN", None, None)):
        for st in STATES:
            for mine in (0, 1, 2):
                def ev(n, a, facts, x):
                    if n.k == "call" and n.q == NODE + "_recvSynchronize":
                        return ("end", "apply", push(a, n.q))
                    if n.k in ("call", "icall") and n.q.split("::")[-1] in ("push", "emplace") and isinstance(n.e, dict) and "obj" in n.e and mutex_field_in(n.e["obj"], n.fr, x.g) == NODE + "_replicateQueue":
                        return ("end", "apply", push(a, "queue"))
                    return a
                if who is None and mine:
                    continue
                t0 = {("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", 1), ("env", "this._state", S(st))}
                if who:
                    t0.add(("env", "this." + who, (0, 101, 100)[mine]))

                def inner(e, fr, gg):
                    if e.get("k") == "call" and e.get("q") == "SData::isSet" and e.get("a") and (const_of(e["a"][0]) or "").find("hashMismatch") >= 0:
                        return 0
                    return None
                c = Cases(ctx, g, PEERS, method_leaf(m, inner), ev)
                got = [n for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset(t0)) if k == "apply"]
                ctx.ok(R5, "%s when %s from %s" % (m, st, ("nobody", "another peer", "the peer we expect")[mine] if who else "a peer"))
                may = st == st0 and (who is None or mine == 2)
                if got and not may:
                    ctx.bad("commits from the wrong peer or state", ONMSG, m, got[0].where(), "a %s received when %s%s is applied" % (m, st, "" if not who else ", from %s" % ("a peer while %s is unset" % who, "another peer than %s" % who, "the expected peer")[mine]))
                if may and not got:
                    ctx.bad("replication refused", ONMSG, m, where, "a %s received when %s is never applied" % (m, st))
    # every transaction goes to the queue, unless the node is about to stop following
    R8 = "a transaction received while following is queued"
    for stop in (0, 77):
        for th in (0, 55):
            def ev(n, a, facts, x):
                if n.k in ("call", "icall") and n.q.split("::")[-1] in ("push", "emplace") and isinstance(n.e, dict) and "obj" in n.e and mutex_field_in(n.e["obj"], n.fr, x.g) == NODE + "_replicateQueue":
                    a = push(a, "queue")
                for f, path, c_, v, y in stores(n, x.g):
                    if f == NODE + "_replicateThread":
                        a = push(a, "thread")
                if n.k == "catch" and n.fr is x.g.root:
                    a = push(a, "caught")
                return a
            c = Cases(ctx, g, PEERS, method_leaf("TRANSACTION"), ev)
            t0 = {("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", 1), ("env", "this._state", S("FOLLOWING")), ("env", "this._replicateThreadShouldExitTime", stop), ("env", "this._replicateThread", th)}
            for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset(t0)):
                s = seq(t)
                if k != "exit" or "caught" in s:
                    continue
                ctx.ok(R8, "exit time %d, thread %s" % (stop, "running" if th else "missing"))
                if not stop and s.count("queue") != 1:
                    ctx.bad("transaction dropped", ONMSG, "queue", where, "a TRANSACTION received while following is queued %d times" % s.count("queue"))
                elif not stop and s.count("thread") != (0 if th else 1):
                    ctx.bad("replication thread", ONMSG, "thread", where, "after a TRANSACTION is queued %s" % ("the replication thread is started again" if th else "no replication thread is started"))
    ctx.need(R8, 2)
    # the queue is first in, first out
    R6 = "replicated transactions are applied in the order they were received"
    for f in p.fns.values():
        for e in fn_exprs(f):
            if e.get("k") == "call" and "obj" in e and strip(e["obj"]).get("k") == "mem" and strip(e["obj"]).get("q") == NODE + "_replicateQueue":
                nm = e.get("q", "").split("::")[-1]
                ctx.ok(R6, "%s %s" % (p.outer(f)["q"], nm))
                if nm in ("back", "pop_back", "push_front", "emplace_front", "top", "insert", "erase"):
                    ctx.bad("replication order", p.outer(f)["q"], nm, "%s:%d" % (f["file"], e.get("l", 0)), "the replication queue is used with %s: transactions are not applied in the order received" % nm)
    ctx.need(R6, 3)
    ctx.need(R5, 20)
    ctx.need(R3, 2)


def as_number(e, fr, g, toks, leaf):
    """Integer behind to_string(x) / SToStr(x) / "12"."""
    o, f = plain(e, fr, g)
    while isinstance(o, dict) and (o.get("k") == "call" and o.get("q") in ("std::to_string", "SToStr", "std::__cxx11::to_string") or o.get("k") == "ctor" and o.get("a")):
        o, f = plain(o["a"][0], f, g)
    if isinstance(o, dict) and o.get("k") == "str":
        return int(o["v"]) if re.fullmatch(r"\d+", o["v"]) else None
    return value(o, f, g, toks, leaf) if isinstance(o, dict) else None


def describe(e, fr, g):
    o, f = plain(e, fr, g)
    return g.canon(o, f) if isinstance(o, dict) else None


def header_store(n, g):
    """(canon of message, header, value expr) of `message["H"] = value` (or emplace/insert-less forms), else None."""
    e = n.e
    if n.k in ("call", "icall") and isinstance(e, dict) and e.get("op") == "=" and "obj" in e and e.get("a"):
        o = strip(e["obj"])
        if o.get("k") == "call" and o.get("q", "").startswith(SHEAD) and o.get("a"):
            h = const_of(o["a"][0])
            return msg_canon(o["obj"], n.fr, g), (h[2:].strip('"') if h else "?"), e["a"][0]
        if o.get("k") == "mem" and o.get("q") in ("SData::content", "SData::methodLine"):
            return msg_canon(o["b"], n.fr, g), "<content>" if o["q"].endswith("content") else "<method>", e["a"][0]
    return None


def message_events(n, a, g, leaf=None):
    """Tokens ("hdr", message, header, number or canon) for what messages under construction contain."""
    h = header_store(n, g)
    if h:
        v = as_number(h[2], n.fr, g, a, leaf)
        if v is None:
            c = const_of(h[2])
            v = c[2:].strip('"') if c else describe(h[2], n.fr, g)
        a = frozenset(t for t in a if not (t[0] == "hdr" and t[1] == h[0] and t[2] == h[1])) | {("hdr", h[0], h[1], v)}
    elif n.k == "decl" and isinstance(n.e, dict) and re.match(r"(const )?SData$", n.e.get("t", "")):
        m = g.var_path(n.e, n.fr)
        a = frozenset(t for t in a if not (t[0] == "hdr" and t[1] == m))
        i = strip(n.e["init"]) if isinstance(n.e.get("init"), dict) else None
        s = [x for x in walk(i) if x.get("k") == "str"] if isinstance(i, dict) else []
        if s:
            a = a | {("hdr", m, "<method>", s[0]["v"])}
    return a


def headers(a, m):
    return {t[2]: t[3] for t in a if t[0] == "hdr" and t[1] == m}


@prop("C16")
def send_replicated(ctx):
    p = ctx.p
    # ---- broadcasting
    fn = NODE + "_sendOutstandingTransactions"
    g = ctx.graph(fn, helpers)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    R1 = "every committed transaction is broadcast once, in order, to the subscribed followers"
    POP = "SQLite::popCommittedTransactions"
    src = [n for n in g.nodes if n.k in ("call", "icall") and n.q == POP]
    ctx.require(src, "%s does not take the committed transactions" % fn)
    if not all(re.match(r"(const )?std::map<", n.e.get("t", "")) for n in src):
        ctx.bad("transaction order", fn, "container", src[0].where(), "the committed transactions are not kept in a map ordered by their number")

    def over(e, fr, gg):
        o, f = plain(e, fr, gg)
        return isinstance(o, dict) and o.get("k") == "call" and o.get("q") == POP
    ok_loop = [n for n in g.nodes if n.k == "rangehead" and over(n.e.get("range"), n.fr, g)]
    LAST = "this._lastSentTransactionID"

    def ev(n, a, facts, x):
        a = message_events(n, a, x.g, None)
        if n.k == "call" and n.q == NODE + "_sendToAllPeers":
            m = msg_canon(call_args(n)[0], n.fr, x.g)
            h = headers(a, m)
            sub = value(call_args(n)[1], n.fr, x.g, a) if len(call_args(n)) > 1 else 0
            a = push(a, ("send", tuple(sorted((k, v) for k, v in h.items() if k != "leaderSendTime")), sub, "leaderSendTime" in h, env_get(a, LAST)))
        elif n.k == "call" and n.q in (NODE + "_sendToPeer", PEER + "sendMessage"):
            a = push(a, ("other", n.where()))
        return a
    if ok_loop:
        P = g.var_path(ok_loop[0].e["var"], ok_loop[0].succ[0][0].fr)
        c = Cases(ctx, g, over, None, ev)
        for ids in ([], [11], [11, 12], [10], [10, 11], [9, 10], [11, 12, 13]):
            pop = tuple(tuple(sorted({"first": i, "": 100 + i}.items())) for i in ids)
            for k, n, t, f in c.population(pop, [g.entry], frozenset(), frozenset({("env", LAST, 10)})):
                if k != "exit":
                    continue
                what = "transactions %s outstanding, %d sent last" % (ids, 10)
                ctx.ok(R1, what)
                s = [e for e in seq(t)]
                got = [dict(e[1]).get("NewCount") for e in s if e[0] == "send"]
                want = [i for i in ids if i > 10]
                if got != want:
                    if None not in got:
                        ctx.bad("broadcast", fn, "which", where, "with %s, transactions %s are broadcast instead of %s" % (what, got, want))
                    else:
                        ctx.notes.append("the NewCount of what %s sends is not traced" % fn)
                    continue
                if env_get(t, LAST) != max([10] + want):
                    ctx.bad("last sent", fn, "last", where, "with %s, _lastSentTransactionID ends as %s instead of %d" % (what, env_get(t, LAST), max([10] + want)))
                for i, e in zip(want, s):
                    h = dict(e[1])
                    if e[0] != "send" or e[2] != 1:
                        ctx.bad("recipients", fn, "subscribed", where, "a committed transaction is sent to peers that are not subscribed")
                        break
                    if h.get("<method>") != "TRANSACTION" or h.get("ID") != i:
                        ctx.bad("transaction message", fn, "message", where, "transaction %d is sent as %s with ID %s" % (i, h.get("<method>"), h.get("ID")))
                    if (h.get("NewHash"), h.get("<content>")) != (P + ".second.second", P + ".second.first"):
                        if not str(h.get("NewHash")).startswith(P) or not str(h.get("<content>")).startswith(P) or h.get("NewHash") == h.get("<content>"):
                            ctx.bad("transaction message", fn, "content", where, "a transaction is sent with hash %s and content %s instead of its own hash and query" % (h.get("NewHash"), h.get("<content>")))
                        elif (h.get("NewHash"), h.get("<content>")) == (P + ".second.first", P + ".second.second"):
                            ctx.bad("transaction message", fn, "content", where, "a transaction is sent with its query as the hash and its hash as the content")
    else:
        ctx.notes.append("the loop over the committed transactions in %s is not a range loop: the broadcast is not compared" % fn)
    # who takes committed transactions from the list
    R2 = "committed transactions are taken off the list only to be sent, or when they are not to be sent"
    for f in p.fns.values():
        for e in fn_exprs(f):
            if e.get("k") == "call" and e.get("q") == POP:
                o = p.outer(f)["q"]
                ctx.ok(R2, o)
                if o not in (fn, NODE + "_changeState", NODE + "_handleCommitTransaction") and o.startswith("SQLiteNode"):
                    ctx.bad("dropped transactions", o, "pop", "%s:%d" % (f["file"], e.get("l", 0)), "%s drops committed transactions that were not sent" % o)
                elif not o.startswith("SQLiteNode") and not f["file"].startswith(("test", "sqlitecluster/SQLite.cpp")):
                    ctx.bad("dropped transactions", o, "pop", "%s:%d" % (f["file"], e.get("l", 0)), "%s drops committed transactions that were not sent" % o)
    # writers of _lastSentTransactionID
    for f in p.fns.values():
        if f["file"].startswith("sqlitecluster/") and not f.get("isctor") and any(e.get("k") == "mem" and e.get("q") == NODE + "_lastSentTransactionID" for e in fn_exprs(f)):
            gg = ctx.graph(f, lambda *z: False)
            for n in gg.nodes:
                for fld, path, cst, v, y in stores(n, gg):
                    if fld == NODE + "_lastSentTransactionID" and p.outer(f)["q"] not in (fn, NODE + "_changeState") and not (f.get("acc") == 2):
                        ctx.bad("last sent", p.outer(f)["q"], "writer", n.where(), "%s changes _lastSentTransactionID" % p.outer(f)["q"])
    # becoming leader
    R3 = "a new leader starts from its own commit count"
    g = ctx.graph(NODE + "_changeState", helpers)

    def lead(n, a, facts, x):
        if n.k == "call" and n.q == POP:
            a = push(a, "pop")
        for fld, path, cst, v, y in stores(n, x.g):
            if fld == NODE + "_lastSentTransactionID":
                o, f = plain(y, n.fr, x.g) if isinstance(y, dict) else (None, None)
                a = push(a, "last=" + ("count" if isinstance(o, dict) and o.get("q") in ("SQLite::getCommitCount", NODE + "getCommitCount") else "?"))
            if fld == NODE + "_state":
                a = push(a, "state")
        return a
    np = pv(g, 0)
    for st in STATES:
        for new in STATES:
            if st == new:
                continue
            c = Cases(ctx, g, PEERS, None, lead)
            for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset({("env", "this._state", S(st)), ("env", np, S(new))})):
                if k != "exit":
                    continue
                s = [e for e in seq(t)]
                ctx.ok(R3, "%s to %s" % (st, new))
                if new == "LEADING" and not has_order(s, "last=count", "state"):
                    ctx.bad("last sent", NODE + "_changeState", "leading", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "going LEADING from %s does not set _lastSentTransactionID to the commit count before the state changes" % st)
                if new == "LEADING" and st not in LEADISH[1:] and "pop" not in s:
                    ctx.bad("last sent", NODE + "_changeState", "old commits", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "going LEADING from %s keeps transactions that were committed before" % st)
                if new != "LEADING" and any(e.startswith("last=") for e in s):
                    ctx.bad("last sent", NODE + "_changeState", "other", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "going %s changes _lastSentTransactionID" % new)
    # the leader sends in every round
    R4 = "a leading node sends what is outstanding in every update"
    g = ctx.graph(NODE + "update", helpers)

    def upd(n, a, facts, x):
        if n.k == "call" and n.q == fn:
            return STOP
        return go_events(n, a, facts, x)
    for st in ("LEADING", "STANDINGDOWN"):
        c = Cases(ctx, g, PEERS, field_leaf({NODE + "NODE_KILLED": 0}), upd)
        for k, n, t, f in c.population((tuple(sorted({"": 100, "loggedIn": 1, "permaFollower": 0, "forked": 0}.items())),), [g.entry], frozenset(), frozenset({("env", "this._state", S(st))})):
            if k == "exit" or k.startswith("go:"):
                ctx.bad("outstanding transactions", NODE + "update", st, n.where() if n.k != "exit" else "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "update can return when %s without sending the outstanding transactions" % st)
        ctx.ok(R4, st)
    # ---- subscribing
    R5 = "a follower is subscribed exactly from the point up to which it was sent commits, and only by a leading node"
    g = ctx.graph(ONMSG, fresh)
    pp = pv(g, 0)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])

    def sub(n, a, facts, x):
        a = message_events(n, a, x.g)
        if n.k == "call" and n.q == NODE + "_queueSynchronize":
            ar = call_args(n)
            a = push(a, "queue %s %s" % (value(ar[1], n.fr, x.g, a), value(ar[4], n.fr, x.g, a)))
        if n.k == "call" and n.q == NODE + "_sendToPeer":
            h = headers(a, msg_canon(call_args(n)[1], n.fr, x.g))
            a = push(a, "send %s %s" % (h.get("<method>"), value(call_args(n)[0], n.fr, x.g, a)))
        if n.k == "call" and n.q == fn:
            a = push(a, "outstanding")
        for fld, path, cst, v, y in stores(n, x.g):
            if fld == PEER + "subscribed":
                a = push(a, "subscribed=%s %s" % (cst, "own" if path.startswith(pp) else "other"))
        if n.k == "catch" and n.fr is x.g.root:
            a = push(a, "caught")
        return a
    for m in sorted(handled_methods(g)):
        if m in ("PING", "PONG"):
            continue
        for st in STATES:
            c = Cases(ctx, g, PEERS, method_leaf(m), sub)
            for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset({("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", 1), ("env", "this._state", S(st))})):
                if k != "exit":
                    continue
                s = [e for e in seq(t)]
                ctx.ok(R5, "%s when %s" % (m, st))
                grants = [e for e in s if e.startswith("subscribed=c:true")]
                if m == "SUBSCRIBE" and st == "LEADING" and "caught" not in s:
                    if s != ["queue 100 1", "send SUBSCRIPTION_APPROVED 100", "subscribed=c:true own"]:
                        ctx.bad("subscription", ONMSG, "sequence", where, "a SUBSCRIBE is handled as: %s; expected all missing commits collected, sent as SUBSCRIPTION_APPROVED, then the peer marked subscribed" % ", ".join(s))
                elif grants and not (m == "SUBSCRIBE" and st == "LEADING" and has_order(s, "queue 100 1", "send SUBSCRIPTION_APPROVED 100", "subscribed=c:true own")):
                    ctx.bad("subscription", ONMSG, "when", where, "a %s received when %s marks a peer as subscribed" % (m, st))
    for f in p.fns.values():
        if f["file"].startswith("sqlitecluster/") and not f.get("isctor") and p.outer(f)["q"] != ONMSG and any(e.get("k") == "mem" and e.get("q") == PEER + "subscribed" for e in fn_exprs(f)):
            gg = ctx.graph(f, lambda *z: False)
            for n in gg.nodes:
                for fld, path, cst, v, y in stores(n, gg):
                    if fld == PEER + "subscribed":
                        ctx.ok(R5, n.where())
                        if cst != "c:false" and f.get("acc") != 2:
                            ctx.bad("subscription", f["q"], "elsewhere", n.where(), "%s marks a peer as subscribed" % f["q"])
    # ---- what a synchronization contains
    queue_synchronize(ctx)
    R8 = "commits are read in order, hash and query"
    for f in p.byq.get("SQLite::getCompressedCommits", ()):
        gg = ctx.graph(f, lambda *z: False)
        q = "".join(x["v"] for n in gg.nodes if isinstance(n.e, dict) for x in walk(n.e) if x.get("k") == "str")
        ctx.ok(R8, f["q"])
        if not re.search(r"order by id(?!\s*desc)", q, re.I):
            ctx.bad("commit order", f["q"], "order", "%s:%d" % (f["file"], f["l"]), "commits are not read in the order of their numbers")
        if not re.search(r"select hash, ?query from \(", q, re.I) and not re.search(r"select hash, ?query from", q, re.I):
            ctx.bad("commit columns", f["q"], "columns", "%s:%d" % (f["file"], f["l"]), "commits are not read as hash and query")
        if not re.search(r"id >= ", q) or not re.search(r"id <= ", q):
            ctx.bad("commit range", f["q"], "range", "%s:%d" % (f["file"], f["l"]), "commits are not read from the first to the last number asked for, inclusive")
    ctx.need(R5, 40)


def queue_synchronize(ctx):
    fn = NODE + "_queueSynchronize"
    g = ctx.graph(fn, lambda h, e, fr: helpers(h, e, fr) and h["q"] != PEER + "getCommit")
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    R6 = "a synchronization response holds exactly the commits after the peer's, up to what the node may send"
    R7 = "a peer that has more or other commits gets no commits"
    counts, hashes, mine = set(), set(), set()
    for n in g.nodes:
        if n.k == "call" and n.q == PEER + "getCommit":
            counts.add(g.canon(call_args(n)[0], n.fr))
            hashes.add(g.canon(call_args(n)[1], n.fr))
        if n.k == "call" and n.q == "SQLite::getCommit":
            for a in call_args(n):
                a = strip(a)
                if isinstance(a, dict) and a.get("k") == "un" and a["op"] == "&":
                    mine.add(g.canon(a["e"], n.fr))
    ctx.require(counts, "the peer's commit count is not read in %s" % fn)
    resp = pv(g, 3)
    sall = pv(g, 4)
    results = [g.canon(call_args(n)[2], n.fr) for n in g.nodes if n.k == "call" and n.q == "SQLite::getCompressedCommits"]
    ctx.require(results, "%s does not read commits" % fn)

    def case(st, P, C, L, same, all_, N, rc):
        def leaf(e, fr, gg):
            k = e.get("k")
            if k in ("var", "mem") and gg.canon(e, fr) in counts:
                return P
            if k == "call":
                q = e.get("q", "")
                if q == "SQLite::getCommitCount":
                    return C
                if q == "SQLite::getCommit":
                    return 1
                if q == "SQLite::getCompressedCommits":
                    return rc
                if "obj" in e and q.split("::")[-1] == "size" and gg.canon(e["obj"], fr) in results:
                    return N
                if "obj" in e and q.split("::")[-1] == "empty" and gg.canon(e["obj"], fr) in results:
                    return int(N == 0)
                if e.get("op") in ("==", "!="):
                    a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
                    ps = [gg.canon(x, fr) for x in a]
                    if len(ps) == 2 and (ps[0] in mine and ps[1] in hashes or ps[1] in mine and ps[0] in hashes):
                        return int(bool(same) == (e["op"] == "=="))
            if k in ("mem", "call", "var"):
                q = e.get("q") if k == "mem" else None
                f = q or origin_field(e, fr, gg)
                if f == NODE + "_state":
                    return S(st)
                if f == NODE + "_lastSentTransactionID":
                    return L
                if f == "SQLite::SharedData::commitCount":
                    return C
            return None

        def ev(n, a, facts, x):
            a = message_events(n, a, x.g, leaf)
            if n.k == "call" and n.q == "SQLite::getCompressedCommits":
                ar = call_args(n)
                a = push(a, ("get", value(ar[0], n.fr, x.g, a, leaf), value(ar[1], n.fr, x.g, a, leaf)))
            if n.k in ("call", "assign") and isinstance(n.e, dict):
                e = n.e
                if e.get("op") == "+=" and "obj" in e or e.get("k") == "bin" and e.get("op") == "+=" or e.get("k") == "call" and e.get("q", "").split("::")[-1] == "append":
                    t = strip(e.get("obj") or e.get("x"))
                    if t.get("k") == "mem" and t.get("q") == "SData::content" and msg_canon(t["b"], n.fr, x.g) == resp:
                        y = e["a"][0] if e.get("a") else e.get("y")
                        ms = [z for z in walk(strip(y)) if z.get("k") == "call" and z.get("q") == "SData::serialize" and "obj" in z]
                        h = headers(a, msg_canon(ms[0]["obj"], n.fr, x.g)) if ms else {}
                        a = push(a, ("commit", h.get("<method>"), h.get("CommitIndex"), h.get("Hash"), h.get("<content>")))
                        if len([z for z in seq(a) if z[0] == "commit"]) > 4:
                            return STOP
            return a
        c = Cases(ctx, g, PEERS, leaf, ev)
        return c.population((), [g.entry], frozenset(), frozenset({("env", sall, all_)}))
    for st in STATES:
        leads = st in LEADISH[1:]
        for P, C, L in ((0, 3, 2), (1, 3, 2), (2, 3, 2), (3, 3, 3), (3, 3, 2), (4, 3, 3), (1, 300, 300), (0, 0, 0), (5, 9, 7)):
            for all_ in (0, 1):
                T = L if leads else C
                frm, to = P + 1, T if all_ else min(T, P + 101)
                for same, good, rc in ((1, 1, 0), (0, 1, 0), (1, 0, 0), (1, 1, 5), (1, 1, 9)):
                    n_ok = to - frm + 1
                    if n_ok < 0 or not good and n_ok <= 1:
                        continue
                    ends = case(st, P, C, L, same, all_, n_ok if good else n_ok - 1, rc)
                    what = "%s, peer at %d, we at %d%s%s" % (st, P, C, " (sent up to %d)" % L if leads else "", ", sending all" if all_ else "")
                    exits = [(t, headers(t, resp), seq(t)) for k, n, t, f in ends if k == "exit"]
                    if P > C or (P and not same):
                        ctx.ok(R7, what)
                        for t, h, s in exits:
                            if P > C:
                                ctx.bad("peer ahead of us", fn, "ahead", where, "%s: the peer is answered although it has more commits" % what)
                            elif s or "NumCommits" in h or "hashMismatchNumber" not in h or "hashMismatchValue" not in h or h["hashMismatchNumber"] != P or h["hashMismatchValue"] not in mine:
                                ctx.bad("forked peer synchronized", fn, "mismatch", where, "%s with another hash: the response is %s" % (what, sorted(k for k in h)))
                        if not exits and P <= C:
                            ctx.bad("mismatch not reported", fn, "mismatch", where, "%s with another hash: the peer is not told" % what)
                        continue
                    if P == T:
                        ctx.ok(R6, what)
                        for t, h, s in exits:
                            if s or h.get("NumCommits") != 0:
                                ctx.bad("synchronized peer", fn, "none", where, "%s: a peer that is up to date is answered with NumCommits=%s" % (what, h.get("NumCommits")))
                        if not exits and (good, rc) == (1, 0):
                            ctx.bad("synchronized peer", fn, "refused", where, "%s: a peer that is up to date is not answered" % what)
                        continue
                    ctx.ok(R6, what + (", read fails" if rc else ", wrong number read" if not good else ""))
                    if rc or not good:
                        if exits:
                            ctx.bad("incomplete response", fn, "rc" if rc else "count", where, "%s: a response is returned although %s" % (what, "reading the commits failed" if rc else "%d commits were read instead of %d" % (n_ok - 1, n_ok)))
                        continue
                    if not exits and n_ok <= 3:
                        ctx.bad("no response", fn, "refused", where, "%s: the peer gets no response" % what)
                    for t, h, s in exits:
                        gets = [e for e in s if e[0] == "get"]
                        if gets != [("get", frm, to)]:
                            ctx.bad("range of commits", fn, "range", where, "%s: commits %s are read instead of %d to %d" % (what, ", ".join("%s to %s" % e[1:] for e in gets), frm, to))
                            break
                        if h.get("NumCommits") != n_ok:
                            ctx.bad("number of commits", fn, "number", where, "%s: NumCommits is %s with %d commits" % (what, h.get("NumCommits"), n_ok))
                        cs = [e for e in s if e[0] == "commit"]
                        if [e[2] for e in cs] != list(range(frm, to + 1)) or any(e[1] != "COMMIT" for e in cs):
                            ctx.bad("commit messages", fn, "messages", where, "%s: the response holds %s instead of COMMIT %d to %d" % (what, ", ".join("%s %s" % e[1:3] for e in cs), frm, to))
                            break
                        if any(not re.search(r"\[0\]$", str(e[3])) or not re.search(r"\[1\]$", str(e[4])) for e in cs) and all(re.search(r"\[[01]\]$", str(z)) for e in cs for z in e[3:5]):
                            ctx.bad("commit messages", fn, "columns", where, "%s: a COMMIT's hash and content are not the hash and query read" % what)


# ------------------------------------------------------------------ message agreement
def missing_throws(g, b):
    """Branch node b: the side taken when the header is missing throws at once."""
    t, pol = b.e, True
    e = strip(b.e)
    while isinstance(e, dict) and (e.get("k") == "un" and e["op"] == "!" or e.get("k") == "cast"):
        if e["k"] == "un":
            pol = not pol
        e = strip(e["e"])
    if not (isinstance(e, dict) and e.get("k") == "call" and e.get("q") == "SData::isSet" and e.get("a")):
        return None
    h = const_of(e["a"][0])
    side = "F" if pol else "T"
    todo, seen = [m for m, lab in b.succ if lab == side], set()
    thr = False
    while todo:
        n = todo.pop()
        if n.i in seen:
            continue
        seen.add(n.i)
        if n.k == "throw":
            thr = True
            break
        if n.k in ("branch", "exit", "switch", "return") or n.k == "loop" and len(n.succ) > 1:
            continue
        todo += [m for m, lab in n.succ if lab != "exc"]
    return (h[2:].strip('"') if h else "?"), msg_canon(e["obj"], b.fr, g), thr


def reads_and_needs(ctx, g, m, root_msg, skip_logs=True):
    """Headers of a message the handler of method m reads, those it throws without, and those it tests otherwise."""
    reach = set()

    def ev(n, a, facts, x):
        reach.add(n.i)
        return a
    c = Cases(ctx, g, PEERS, method_leaf(m) if m else None, ev)
    c.population((), [g.entry], frozenset(), frozenset())
    need, soft, read = {}, {}, {}
    for i in reach:
        n = g.nodes[i]
        if n.k == "branch":
            r = missing_throws(g, n)
            if r and r[1] == root_msg:
                (need if r[2] else soft)[r[0]] = n
        if n.k in ("log", "nop") or not isinstance(n.e, dict) or "k" not in n.e:
            continue
        if n.k in ("call", "icall") and n.e.get("k") == "call" and n.e.get("a") and "obj" in n.e:
            h = header_read(n.e, n.fr, g)
            if h and h[1] == root_msg and not in_log(n, g):
                read.setdefault(h[0], n)
    return need, soft, read


def in_log(n, g):
    return False


@prop("C17")
def messages_agree(ctx):
    p = ctx.p
    # ---- names of states
    R1 = "every state's name is understood as that state"
    tabs = {}
    for nm in ("stateName", "stateFromName"):
        pairs = {}
        for f in p.byq.get(NODE + nm, ()):
            ctx.fns.add(f["q"])
            for e in fn_exprs(f):
                if e.get("k") in ("ctor", "init"):
                    a = [strip(z) for z in e.get("a", ()) if z.get("k") != "defarg"]
                    if len(a) == 2:
                        en = [z for z in a if z.get("k") == "enum"]
                        st = [z for z in a if z.get("k") != "enum"]
                        if len(en) == 1 and len(st) == 1:
                            s = [z for z in walk(st[0]) if z.get("k") == "str"]
                            if len(s) == 1:
                                k, v = (en[0]["q"], s[0]["v"]) if nm == "stateName" else (s[0]["v"], en[0]["q"])
                                if k in pairs and pairs[k] != v:
                                    ctx.bad("state name", NODE + nm, k, "%s:%d" % (f["file"], f["l"]), "%s maps %s twice" % (nm, k))
                                pairs[k] = v
            if not pairs:
                gg = ctx.graph(f, lambda *z: False)
                pp = pv(gg, 0)
                for s in STATES if nm == "stateName" else ():
                    def rev(n, a, facts, x):
                        if n.k == "return" and n.fr is x.g.root and isinstance(n.e, dict):
                            z = [y for y in walk(n.e) if y.get("k") == "str"]
                            if len(z) == 1:
                                pairs["SQLiteNodeState::" + s] = z[0]["v"]
                        return a
                    Cases(ctx, gg, PEERS, None, rev).population((), [gg.entry], frozenset(), frozenset({("env", pp, S(s))}))
        tabs[nm] = pairs
    f = p.byq[NODE + "stateName"][0]
    if tabs["stateName"] and tabs["stateFromName"]:
        for s in STATES:
            q = "SQLiteNodeState::" + s
            n = tabs["stateName"].get(q)
            ctx.ok(R1, s)
            if s == "UNKNOWN":
                if n in tabs["stateFromName"] and tabs["stateFromName"][n] != q:
                    ctx.bad("state name", NODE + "stateFromName", s, "%s:%d" % (f["file"], f["l"]), "the name of UNKNOWN is understood as %s" % tabs["stateFromName"][n])
                continue
            if n is None or tabs["stateFromName"].get(n.upper()) != q:
                ctx.bad("state name", NODE + "stateFromName", s, "%s:%d" % (f["file"], f["l"]), "a node that is %s announces itself as %r, which peers understand as %s" % (s, n, tabs["stateFromName"].get((n or "").upper(), "UNKNOWN")))
    else:
        ctx.notes.append("state names are not kept in tables: not compared")
    # ---- senders
    R2 = "every message sent to a peer is handled by the receiver"
    R3 = "every message carries the headers its receiver cannot do without"
    sent = {}
    for f in sorted(p.fns.values(), key=lambda f: f["id"]):
        if not f["file"].startswith("sqlitecluster/") or not any(e.get("k") == "call" and e.get("q") in PEER_SENDS for e in fn_exprs(f)):
            continue
        g = ctx.graph(f, fresh)

        def ev(n, a, facts, x, f=f):
            h = header_store(n, x.g)
            if h:
                a = a | {("h", h[0], h[1])}
                if h[1] == "<method>":
                    c = const_of(h[2])
                    a = frozenset(t for t in a if t[:2] != ("m", h[0])) | ({("m", h[0], c[2:].strip('"'))} if c else set())
            elif n.k == "decl" and isinstance(n.e, dict) and re.match(r"(const )?SData$", n.e.get("t", "")):
                m = x.g.var_path(n.e, n.fr)
                a = frozenset(t for t in a if t[1] != m)
                i = strip(n.e["init"]) if isinstance(n.e.get("init"), dict) else None
                s = [z for z in walk(i) if z.get("k") == "str"] if isinstance(i, dict) else []
                if s:
                    a = a | {("m", m, s[0]["v"])}
                elif isinstance(i, dict):
                    srcs = {msg_canon(z, n.fr, x.g) for z in walk(i) if z.get("k") == "var"}
                    a = a | {(t[0], m) + t[2:] for t in a if t[1] in srcs}
            if n.k == "call" and n.q == NODE + "_queueSynchronize":
                m = msg_canon(call_args(n)[3], n.fr, x.g)
                a = a | {("h", m, "<sync>")}
            if n.k in ("call", "icall") and n.q.startswith(SHEAD) and isinstance(n.e, dict) and n.e.get("a") and "obj" in n.e and not x.g.p.decls.get(n.e.get("f"), {}).get("const"):
                c = const_of(n.e["a"][0])  # operator[] inserts the header
                if c:
                    a = a | {("h", msg_canon(n.e["obj"], n.fr, x.g), c[2:].strip('"'))}
            if n.k in ("call", "icall") and n.q in PEER_SENDS:
                ar = call_args(n)
                me = ar[0] if n.q != NODE + "_sendToPeer" else ar[1]
                m = msg_canon(me, n.fr, x.g)
                ms = [t[2] for t in a if t[0] == "m" and t[1] == m]
                meth = ms[0] if ms else method_of(me, n.fr, x.g)
                if meth:
                    sent.setdefault(meth, []).append((f["q"], n.where(), {t[2] for t in a if t[0] == "h" and t[1] == m} | ({"CommitCount", "Hash", "commandAddress"} if n.q != PEER + "sendMessage" else set())))
                elif not (isinstance(plain(me, n.fr, x.g)[0], dict) and origin_param(me, n.fr, x.g) is not None) and f["q"] not in (NODE + "_sendToPeer", NODE + "_sendToAllPeers"):
                    ctx.notes.append("the method of the message sent at %s is not known" % n.where())
            return a
        ctx.explore(g, Flow(ev))
    ctx.require(len(sent) >= 8, "only %d kinds of messages to peers found" % len(sent))
    # headers added for all
    g = ctx.graph(NODE + "_addPeerHeaders", lambda *z: False)
    added = {header_store(n, g)[1] for n in g.nodes if header_store(n, g)}
    for h in ("CommitCount", "Hash"):
        ctx.ok(R3, "%s added to every message" % h)

        def hv(n, a, facts, x, h=h):
            s = header_store(n, x.g)
            if s and s[1] == h:
                a = a | {("set",)}
            return a

        def hl(e, fr, gg):
            return 0 if e.get("k") == "call" and e.get("q") == "SData::isSet" else None
        c = Cases(ctx, g, PEERS, hl, hv)
        for k, n, t, f in c.run([g.entry], frozenset(), frozenset()):
            if k == "exit" and ("set",) not in t:
                ctx.bad("peer headers", NODE + "_addPeerHeaders", h, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "messages to peers can go without %s" % h)
        for nm in ("_sendToPeer", "_sendToAllPeers"):
            gg = ctx.graph(NODE + nm, lambda *z: False)
            if not any(n.k == "call" and n.q == NODE + "_addPeerHeaders" for n in gg.nodes):
                ctx.bad("peer headers", NODE + nm, h, "%s:%d" % (gg.root_fn["file"], gg.root_fn["l"]), "%s does not add %s to messages" % (nm, h))
    # ---- receivers
    g = ctx.graph(ONMSG, lambda h, e, fr: fresh(h, e, fr) or h["q"] in (NODE + "_recvSynchronize", NODE + "_sendStandupResponse"))
    msg = pv(g, 1)
    ms = handled_methods(g)
    for m in sorted(sent):
        if m == "RECONNECT":
            continue
        ctx.ok(R2, m)
        if m.upper() not in {x.upper() for x in ms}:
            ctx.bad("unhandled message", sent[m][0][0], m, sent[m][0][1], "%s sends %s, which no node handles" % (sent[m][0][0], m))
            continue
        need, soft, read = reads_and_needs(ctx, g, m, msg)
        want = dict(need)
        for h, n in read.items():
            if h not in soft and h in ("StateChangeCount", "Response", "State", "Priority", "Version", "Timestamp", "NumCommits", "NewCount", "NewHash", "ID", "Name"):
                want.setdefault(h, n)
        if m == "LOGIN":
            want.setdefault("Name", None)
        if m == "TRANSACTION":
            g2 = ctx.graph(NODE + "_replicate", apply_helpers)
            for n in g2.nodes:
                r = missing_throws(g2, n) if n.k == "branch" else None
                if r and r[2]:
                    want[r[0]] = n
                if n.k == "call" and n.e.get("k") == "call" and n.e.get("a") and "obj" in n.e:
                    h = header_read(n.e, n.fr, g2)
                    if h and h[0] in ("NewCount", "NewHash"):
                        want.setdefault(h[0], n)
            want["<content>"] = None
        for src, where, hs in sent[m]:
            for h in sorted(want):
                ctx.ok(R3, "%s %s" % (m, h))
                if h in hs:
                    continue
                if h == "NumCommits" and ("<sync>" in hs or "ShuttingDown" in hs):
                    continue
                if h == "StateChangeCount" and m in ("STATE", "LOGIN") and h not in need:
                    if m == "LOGIN":
                        continue
                ctx.bad("missing header", src, "%s %s" % (m, h), where, "%s sends %s without %s, which its receiver needs" % (src, m, h))
    # commits within a synchronization
    gq = ctx.graph(NODE + "_queueSynchronize", fresh)
    gr = ctx.graph(NODE + "_recvSynchronize", apply_helpers)
    want = {}
    for n in gr.nodes:
        r = missing_throws(gr, n) if n.k == "branch" else None
        if r and r[2] and r[0] not in ("NumCommits",):
            want[r[0]] = n
    inner = set()

    def cv(n, a, facts, x):
        a = message_events(n, a, x.g)
        if n.k == "call" and n.q == "SData::serialize" and isinstance(n.e, dict) and "obj" in n.e:
            h = headers(a, msg_canon(n.e["obj"], n.fr, x.g))
            if h.get("<method>") == "COMMIT" or h:
                inner.add((n.where(), h.get("<method>"), frozenset(h)))
        return a
    ctx.explore(gq, Flow(cv))
    for where, m, hs in sorted(inner, key=str):
        for h in sorted(want):
            ctx.ok(R3, "COMMIT %s" % h)
            if h not in hs:
                ctx.bad("missing header", NODE + "_queueSynchronize", h, where, "a COMMIT is sent without %s, which its receiver needs" % h)
        if not SIeq(m, "COMMIT"):
            ctx.bad("missing header", NODE + "_queueSynchronize", "method", where, "a commit is sent as %s" % m)
    # ---- what a peer says about itself is recorded for it
    R4 = "what a peer announces is recorded for that peer"
    g = ctx.graph(ONMSG, fresh)
    pp = pv(g, 0)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    for m in ("LOGIN", "STATE"):
        for pr in (0, 5):
            for st in ("WAITING", "LEADING", "STANDINGUP"):
                def inner(e, fr, gg):
                    if e.get("k") == "call" and e.get("q") == NODE + "stateFromName" and e.get("a"):
                        h = header_read(e["a"][0], fr, gg)
                        return S(st) if h and h[0] == "State" else None
                    h = header_read(e, fr, gg) if e.get("k") == "call" else None
                    return pr if h and h[0] == "Priority" else None

                def ev(n, a, facts, x):
                    for f, path, c_, v, y in stores(n, x.g):
                        if f in (PEER + "priority", PEER + "state", PEER + "permaFollower", PEER + "loggedIn", PEER + "forked"):
                            w = {"c:true": 1, "c:false": 0}.get(c_)
                            if w is None and isinstance(y, dict):
                                w = value(y, n.fr, x.g, a, method_leaf(m, inner))
                            a = frozenset(t for t in a if t[:2] != ("f", f)) | {("f", f, w if path.startswith(pp) else "other")}
                    if n.k in ("call", "icall") and n.q == PEER + "setCommit":
                        hs = [(header_read(z, n.fr, x.g) or ("?",))[0] for z in call_args(n)]
                        a = a | {("commit", tuple(hs), origin_param(n.e["obj"], n.fr, x.g) == 0)}
                        if any(z.get("k") == "call" and (z.get("q") in ("SData::calc", "SToInt") or z.get("q", "").startswith("std::") and z["q"].endswith(("stoi", "stol"))) for z in mentions(call_args(n)[0], n.fr, x.g)):
                            ctx.bad("peer record", ONMSG, "narrow", n.where(), "the peer's commit count is recorded cut off to 32 bits")
                    if n.k == "catch" and n.fr is x.g.root or n.k in ("call", "icall") and n.q == NODE + "_reconnectPeer":
                        a = a | {("caught",)}
                    return a
                c = Cases(ctx, g, PEERS, method_leaf(m, inner), ev)
                t0 = frozenset({("env", pp, 100), ("env", pp + ".forked", 0), ("env", pp + ".loggedIn", int(m == "STATE")), ("env", pp + ".state", S("SEARCHING")), ("env", "this._state", S("WAITING")), ("env", "this._priority", 9)})
                for k, n, t, f in c.population((), [g.entry], frozenset(), t0):
                    if k != "exit" or ("caught",) in t:
                        continue
                    v = {z[1].split("::")[-1]: z[2] for z in t if z[0] == "f"}
                    ctx.ok(R4, "%s, priority %d, %s" % (m, pr, st))
                    for nm, want in (("priority", pr), ("state", S(st)), ("permaFollower", int(pr == 0))):
                        if v.get(nm) != want:
                            ctx.bad("peer record", ONMSG, "%s %s" % (m, nm), where, "after a %s with priority %d and state %s the peer's %s is %s" % (m, pr, st, nm, "not recorded" if nm not in v else "recorded for another peer" if v[nm] == "other" else "recorded as %s" % v[nm]))
                    if not any(z[0] == "commit" and z[1] == ("CommitCount", "Hash") and z[2] for z in t):
                        ctx.bad("peer record", ONMSG, "%s commit" % m, where, "a %s is handled without recording the peer's commit count and hash" % m)
    ctx.need(R2, 8)
    ctx.need(R3, 20)


def SIeq(a, b):
    return (a or "").lower() == b.lower()


# ------------------------------------------------------------------ peer sessions
SESSION = {"latency": 0, "loggedIn": 0, "priority": 0, "subscribed": 0, "lastPingTime": 0, "forked": 0, "commitCount": 0, "state": "SEARCHING", "standupResponse": "NONE"}


@prop("C18")
def peer_session(ctx):
    p = ctx.p
    fn = PEER + "reset"
    g = ctx.graph(fn, lambda h, e, fr: h.get("c") == "SQLitePeer")
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    R1 = "a reset peer is as before its first connection"
    const = {"state": S("SEARCHING"), "standupResponse": R("NONE")}

    def ev(n, a, facts, x):
        for fld, path, c, v, y in stores(n, x.g):
            if fld.startswith(PEER):
                nm = fld.split("::")[-1]
                w = value(y, n.fr, x.g, a) if isinstance(y, dict) else None
                if nm == "socket" and c == "c:null":
                    w = 0
                if w is None and nm in ("version", "hash"):
                    w = 0 if length(plain(y, n.fr, x.g)[0]) == 0 else 1
                a = frozenset(t for t in a if t[:2] != ("f", nm)) | {("f", nm, w)}
        if n.k == "delete" and isinstance(n.e, dict) and ("socket" in str(x.g.canon(n.e["e"], n.fr)) or origin_field(n.e["e"], n.fr, x.g) == PEER + "socket"):
            a = a | {("deleted", ("f", "socket", 0) in a and strip(n.e["e"]).get("k") == "mem")}
        return a
    c = Cases(ctx, g, PEERS, None, ev)
    got = False
    for k, n, t, f in c.population((), [g.entry], frozenset(), frozenset()):
        if k != "exit":
            continue
        got = True
        v = {x[1]: x[2] for x in t if x[0] == "f"}
        for nm, w in list(SESSION.items()) + [("version", 0), ("hash", 0), ("socket", 0)]:
            ctx.ok(R1, nm)
            w = const.get(nm, w)
            if v.get(nm) != w:
                ctx.bad("peer reset", fn, nm, where, "reset() leaves %s %s" % (nm, "as it was" if nm not in v else "at another value than before the first connection"))
        ctx.ok(R1, "socket deleted")
        if ("deleted", False) not in t:
            ctx.bad("peer reset", fn, "delete", where, "reset() does not close the peer's socket")
    ctx.require(got, "reset() never returns")
    # ---- every session field is reset
    R2 = "every field a connection changes is covered by the reset"
    changed = {}
    for f in p.fns.values():
        if f["file"].startswith("sqlitecluster/") and not f.get("isctor") and f["q"] != fn:
            if not any(e.get("k") == "mem" and e.get("q", "").startswith(PEER) for e in fn_exprs(f)):
                continue
            gg = ctx.graph(f, lambda *z: False)
            for n in gg.nodes:
                for fld, path, cst, v, y in stores(n, gg):
                    if fld.startswith(PEER):
                        changed.setdefault(fld.split("::")[-1], (f["q"], n.where()))
    for nm in sorted(changed):
        ctx.ok(R2, nm)
    known = set(SESSION) | {"version", "hash", "socket", "permaFollower", "commandAddress", "nextReconnect"}
    for nm in sorted(set(changed) - known):
        ctx.notes.append("SQLitePeer::%s is changed by %s; whether reset() has to cover it is not known" % (nm, changed[nm][0]))
    # ---- order when a connection closes
    R3 = "a closed connection is drained, then reset, then its loss is handled"
    g = ctx.graph(NODE + "postPoll", fresh)
    names = {NODE + "_processPeerMessages": "drain", PEER + "reset": "reset", NODE + "_onDisconnect": "lost", NODE + "_onConnect": "connected", PEER + "shutdownSocket": "shut"}
    E = {k.split("::")[-1]: v for k, v in Explorer.ENUMS.items() if k.startswith("SQLitePeer::PeerPostPollStatus::")}
    ctx.require(len(E) >= 4, "results of SQLitePeer::postPoll not found")
    for st in sorted(E):
        def leaf(e, fr, gg, st=st):
            o, f = plain(e, fr, gg)
            if isinstance(o, dict) and o.get("k") == "call" and o.get("q") == PEER + "postPoll":
                return E[st]
            if isinstance(o, dict) and o.get("k") == "mem" and o.get("q") == NODE + "NODE_KILLED" or isinstance(o, dict) and o.get("k") == "var" and o.get("q") == NODE + "NODE_KILLED":
                return 0
            return None

        def ev(n, a, facts, x):
            if n.k == "call" and n.q == PEER + "postPoll":
                a = a | {("polled",)}
            if n.k in ("call", "icall") and n.q in names and ("polled",) in a:
                w = names[n.q]
                ar = call_args(n)
                if w == "drain":
                    w += "-all" if len(ar) > 2 and value(ar[2], n.fr, x.g, a) == 1 else ""
                    who = value(ar[1], n.fr, x.g, a)
                elif n.q.startswith(PEER):
                    who = value(n.e["obj"], n.fr, x.g, a)
                else:
                    who = value(ar[0], n.fr, x.g, a)
                a = push(a, w if who == 100 else w + " other")
            return a
        c = Cases(ctx, g, PEERS, leaf, ev)
        ends = set()
        heads = [L.head for L in c.loops.values()]
        ctx.require(heads or foreign(c), "postPoll does not loop over the peers")
        for k, n, t, f in c.population(((("", 100), ("lastPingTime", 0)),), heads[:1], frozenset(), frozenset()) if heads else ():
            if k == "exit" and ("polled",) in t:
                ends.add(seq(t))
        want = {"SOCKET_CLOSED": ("drain-all", "reset", "lost"), "SOCKET_ERROR": ("drain-all", "shut"), "JUST_CONNECTED": ("connected", "drain"), "OK": ("drain",)}.get(st)
        ctx.ok(R3, st)
        if foreign(c):
            ctx.notes.append("postPoll loops over the peers in another form than a range loop: not compared")
            continue
        for s in ends:
            if want and s != want and not (st != "SOCKET_CLOSED" and [e for e in s if e in ("reset", "lost")] == [] and has_order(s, *want)):
                ctx.bad("peer connection", NODE + "postPoll", st, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "after %s a peer is handled as %s instead of %s" % (st, ", ".join(s) or "nothing", ", ".join(want)))
        ctx.require(ends or not heads, "postPoll never returns for %s" % st)
    # ---- one socket per peer
    R4 = "a peer never gets a second socket while it has one"
    for f in p.methods_of("SQLitePeer"):
        if not any(e.get("k") == "mem" and e.get("q") == PEER + "socket" for e in fn_exprs(f)) or f.get("isctor") or f.get("isdtor"):
            continue
        gg = ctx.graph(f, lambda h, e, fr: h["q"] == fn)
        writes = [n for n in gg.nodes for s in stores(n, gg) if s[0] == PEER + "socket" and s[2] != "c:null"]
        if not writes:
            continue
        for have in (0, 1):
            def ev(n, a, facts, x):
                for fld, path, cst, v, y in stores(n, x.g):
                    if fld == PEER + "socket":
                        old = env_get(a, "sock")
                        if cst == "c:null":
                            a = env_set(a, "sock", 0)
                        else:
                            ctx.ok(R4, n.where())
                            if old == 1:
                                return ("end", "overwrite", push(a, n.where()))
                            a = env_set(a, "sock", 1)
                        a = env_set(a, "this.socket", env_get(a, "sock"))
                return a

            def leaf(e, fr, gg):
                return None
            t0 = {("env", "this.socket", have), ("env", "sock", have)}
            if f["q"] == PEER + "setSocket" and len(f["p"]) > 1:
                t0.add(("env", pv(gg, 1), 1))
            c = Cases(ctx, gg, PEERS, leaf, ev)
            for k, n, t, ff in c.population((), [gg.entry], frozenset(), frozenset(t0)):
                if k == "overwrite":
                    ctx.bad("second socket", f["q"], "overwrite", n.where(), "%s replaces the socket of a connected peer" % f["q"])
                if k == "exit" and f["q"] == PEER + "setSocket":
                    pass
    for f in p.fns.values():
        for e in fn_exprs(f):
            if e.get("k") == "call" and e.get("q") == PEER + "setSocket":
                a = [x for x in e.get("a", ())]
                ctx.ok(R4, "%s:%s" % (f["file"], e.get("l")))
                if len(a) > 1 and a[1].get("k") != "defarg" and not always_true(p, f, a[1]):
                    ctx.bad("second socket", p.outer(f)["q"], "force", "%s:%d" % (f["file"], e.get("l", 0)), "%s gives a peer a socket even if it has one" % p.outer(f)["q"])
    ctx.need(R4, 2)
    ctx.need(R2, 8)
    drained(ctx)


def always_true(p, f, e):
    """Whether an argument is the constant true, possibly by way of locals that are."""
    e = strip(e)
    if const_of(e) is not None:
        return const_of(e) == "c:true"
    if e.get("k") == "var" and e.get("id"):
        for d in nodes(f["body"]):
            if d.get("k") == "decl" and isinstance(d.get("v"), dict) and d["v"].get("id") == e["id"]:
                return isinstance(d["v"].get("init"), dict) and "const" in d["v"].get("t", "") and always_true(p, f, d["v"]["init"])
    return False


def drained(ctx):
    """Asked to process everything, _processPeerMessages stops only because there is no message left."""
    p = ctx.p
    R = "remaining messages are processed without limit"
    pop = p.byq.get(PEER + "popMessage", ())
    if not pop or not any(z.get("k") == "throw" for z in fn_exprs(pop[0])):
        ctx.notes.append("running out of messages is not reported by an exception: the end of the loop is not analysed")
        return
    g = ctx.graph(NODE + "_processPeerMessages", lambda h, e, fr: fresh(h, e, fr) and h["q"] not in (ONMSG, PEER + "popMessage"))
    if len(g.root_fn["p"]) < 3:
        ctx.notes.append("_processPeerMessages takes no limit flag")
        return

    def ev(n, a, facts, x):
        if n.k == "catch":
            a = a | {("none left",)}
        if n.k == "exit":
            ctx.ok(R, "unlimited")
            if ("none left",) not in a:
                ctx.bad("peer connection", NODE + "_processPeerMessages", "limit", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "the remaining messages of a closed connection are not all processed", x.trace())
        return a
    ctx.explore(g, Flow(ev), facts=frozenset({(("t", pv(g, 2)), True)}))
    ctx.need(R, 1)


@prop("C19")
def bad_messages(ctx):
    p = ctx.p
    g = ctx.graph(ONMSG, fresh)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    pp = pv(g, 0)
    R1 = "a message that is refused costs the peer its connection, and nothing else"
    throws = [n for n in g.nodes if n.k == "throw"]
    ctx.require(len(throws) >= 10, "only %d refusals found in _onMESSAGE" % len(throws))

    def ev(n, a, facts, x):
        if n.k == "throw":
            ctx.ok(R1, n.where())
            return frozenset({("thrown", n.i)})
        if n.k == "catch" and a and next(iter(a))[0] == "thrown":
            return frozenset({("caught", next(iter(a))[1])})
        t = next((t for t in a if t[0] == "caught"), None)
        if t:
            if n.k == "call" and n.q == NODE + "_sendToPeer" and origin_param(call_args(n)[0], n.fr, x.g) == 0 and method_of(call_args(n)[1], n.fr, x.g) == "RECONNECT":
                a = a | {("told",)}
            if n.k == "call" and n.q == PEER + "shutdownSocket" and origin_param(n.e["obj"], n.fr, x.g) == 0:
                a = a | {("shut", ("told",) in a)}
            if n.k == "exit" and ("shut", True) not in a:
                ctx.bad("refused message", ONMSG, "reconnect", x.g.nodes[t[1]].where(), "a message refused here %s" % (
                    "does not close the peer's connection" if not any(s[0] == "shut" for s in a) else "closes the connection without telling the peer"))
        if n.k == "excexit" and a and not t:
            ctx.bad("refused message", ONMSG, "escapes", x.g.nodes[next(iter(a))[1]].where(), "a message refused here makes an exception leave the message handler: the node ends")
        return a
    ctx.explore(g, Flow(ev))
    # ---- nothing done after a refusal was decided: no throwing conversions outside of a handler for std::exception
    R2 = "what a peer sends is not parsed with functions that throw"
    seen, todo = set(), [f["id"] for q in (ONMSG, NODE + "_processPeerMessages", NODE + "_replicate", PEER + "popMessage") for f in p.byq.get(q, ())]
    stop = re.compile(r"^(BedrockServer|BedrockPlugin|BedrockCommand|SQLiteClusterMessenger|SQLite|SQLitePool|SLog|SSyslog)")
    parse = re.compile(r"^std::(__cxx11::)?(stoi|stol|stoll|stoul|stoull|stof|stod)$")
    while todo:
        i = todo.pop()
        if i in seen or i not in p.fns:
            continue
        seen.add(i)
        f = p.fns[i]
        guarded = in_std_try(f)
        for e in fn_exprs(f):
            if e.get("k") not in ("call", "ctor"):
                continue
            ctx.obl.setdefault(R2, [0, []])
            if parse.search(e.get("q", "")):
                ctx.ok(R2, "%s in %s" % (e["q"], f["q"]))
                if id(e) not in guarded and not constant_args(e):
                    ctx.bad("throwing conversion", f["q"], e["q"], "%s:%d" % (f["file"], e.get("l", 0)), "%s parses data from a peer with %s, which throws std::invalid_argument or std::out_of_range; nothing catches that" % (f["q"], e["q"]))
            for t in p.targets(e):
                if t in p.fns and not stop.match(p.fns[t]["q"]) and id(e) not in guarded:
                    todo.append(t)
        ctx.ok(R2, f["q"])
    # ---- synchronization threads are counted down
    R3 = "every synchronization thread is counted down once"
    field = NODE + "_pendingSynchronizeResponses"
    n_l = 0
    for f in p.fns.values():
        if not f["file"].startswith("sqlitecluster/") or not any(e.get("k") == "mem" and e.get("q") == field for e in fn_exprs(f)) or f.get("isctor"):
            continue
        gg = ctx.graph(f, fresh)
        ws = [n for n in gg.nodes for s in stores(n, gg) if s[0] == field]
        if not ws:
            continue
        n_l += 1

        def cv(n, a, facts, x, f=f):
            for fld, path, c, v, y in stores(n, x.g):
                if fld == field:
                    up = n.e.get("op") in ("++", "+=") or n.e.get("q", "").endswith("fetch_add")
                    d = [t for t in a if t[0] == "d"]
                    k = (d[0][1] if d else 0) + (1 if up else -1)
                    a = frozenset(t for t in a if t[0] != "d") | {("d", max(-2, min(2, k)))}
            if n.k in ("call", "icall") and n.q == "std::thread::detach":
                t = [t[1] for t in a if t[0] == "t"] or [0]
                a = frozenset(z for z in a if z[0] != "t") | {("t", min(2, t[0] + 1))}
            if n.k == "exit" and f["q"] == ONMSG and not f.get("lambda"):
                d, t = ([z[1] for z in a if z[0] == w] or [0] for w in "dt")
                if d[0] != t[0]:
                    ctx.bad("synchronization count", ONMSG, "unmatched", "%s:%d" % (f["file"], f["l"]), "the number of running synchronizations is changed by %d although %d are started" % (d[0], t[0]))
            if n.k == "exit":
                d = [t[1] for t in a if t[0] == "d"] or [0]
                ctx.ok(R3, "%s:%d" % (f["file"], f["l"]))
                if f.get("lambda") and d[0] != -1:
                    ctx.bad("synchronization count", p.outer(f)["q"], "down", "%s:%d" % (f["file"], f["l"]), "the synchronization thread can end after counting itself down %d times: the node never shuts down, or shuts down while one runs" % -d[0], x.trace())
            return a
        ctx.explore(gg, Flow(cv))
        if f["q"] == ONMSG:
            def st(n, a, facts, x):
                for fld, path, c, v, y in stores(n, x.g):
                    if fld == field:
                        a = a | {("up",)}
                if n.k in ("call", "icall") and n.q == "std::thread::detach":
                    if ("up",) not in a:
                        ctx.bad("synchronization count", ONMSG, "up", n.where(), "a synchronization thread is started before it is counted: shutdown may not wait for it")
                return a
            ctx.explore(gg, Flow(st))
    ctx.need(R3, 2)
    ctx.need(R2, 10)


def constant_args(e):
    return all(strip(a).get("k") in ("str", "int", "defarg", "ctor") and not any(z.get("k") in ("var", "mem") for z in walk(a)) for a in e.get("a", ()))


def in_std_try(f):
    """ids of expressions inside a try whose handlers take std::exception (or everything)."""
    out = set()

    def st(s, g):
        if isinstance(s, list):
            for x in s:
                st(x, g)
            return
        if not isinstance(s, dict):
            return
        if s.get("k") == "try":
            wide = any(("c" not in h and "t" not in h) or re.search(r"^(const )?std::(exception|logic_error|invalid_argument)", h.get("c") or h.get("t") or "") for h in s["h"])
            st(s["body"], g or wide)
            for h in s["h"]:
                st(h["body"], g)
            return
        if g and s.get("k") in ("call", "ctor"):
            out.add(id(s))
        for k, v in s.items():
            if isinstance(v, (dict, list)) and not k.startswith("_"):
                st(v, g)
    st(f.get("body"), False)
    return out
