"""Core and server: plugin phases (C20), transactions of a command (C21), exceptions (C22), running a command (C23, C24) and the rest of the server."""
from . import prop
from ..lib import *
from ..cases import *
from .node import stores

CORE = "BedrockCore::"
CMD = "BedrockCommand::"
DB = "SQLiteCore::_db"
RES = lambda x: Explorer.ENUMS["BedrockCore::RESULT::" + x]
PHASES = {CMD + "prePeek": "prePeek", CMD + "peek": "peek", CMD + "process": "process", CMD + "postProcess": "postProcess"}
COREFNS = {CORE + "prePeekCommand": "prePeek", CORE + "peekCommand": "peek", CORE + "processCommand": "process", CORE + "postProcessCommand": "postProcess"}
# A plugin's name and flags (assumed not to throw; the phases may throw anything).
ACCESSORS = {CMD + x for x in ("getMethodName", "shouldSuppressTimeoutWarnings", "getName", "shouldPrePeek", "shouldPostProcess", "getPlugin")}
OPAQUE = {CORE + "getRemainingTime", CORE + "_handleCommandException"}


def core_inline(h, e, fr):
    return h["file"].startswith("BedrockCore") and h["q"] not in OPAQUE or bool(h.get("lambda")) and h["file"].startswith("BedrockCore")


def on_db(n, g):
    """The call is made on the handle of this core."""
    return n.k in ("call", "icall") and "obj" in n.e


def has(toks, name):
    for t in toks:
        if t[0] == "s" and t[1] == name:
            return t[2]
    return None


def put(toks, name, v):
    return frozenset(t for t in toks if not (t[0] == "s" and t[1] == name)) | ({("s", name, v)} if v is not None else set())


def isset_of(e):
    """The constant header name of `x.isSet("name")` / SContains(x.nameValueMap, "name")."""
    if e.get("k") == "call" and e.get("q") in ("SData::isSet",) and e.get("a"):
        return const_of(strip_str(e["a"][0]))
    return None


def possible(e, fr, g, toks, leaf):
    """All values an expression may have when undecided conditionals go both ways (None: some other value)."""
    v = value(e, fr, g, toks, leaf)
    if v is not None:
        return {v}
    o, f = origin(e, fr, g)
    if isinstance(o, dict) and o.get("k") == "cond":
        c = value(o["c"], f, g, toks, leaf)
        return (possible(o["x"], f, g, toks, leaf) if c != 0 else set()) | (possible(o["y"], f, g, toks, leaf) if not c else set())
    return {None}


def strip_str(e):
    e = strip(e)
    while isinstance(e, dict) and e.get("k") == "ctor" and e.get("a"):
        e = strip(e["a"][0])
    return e


def arg(n, i):
    a = n.e.get("a", [])
    return a[i] if i < len(a) else None


class Core:
    """Runs one of the four core functions for one scenario; records what a phase is called with and what is left on every way out."""

    def __init__(self, ctx, q, part):
        self.part = part
        self.ctx, self.q, self.phase = ctx, q, COREFNS[q]
        self.g = ctx.graph(q, core_inline)
        g = self.g
        self.inside = {g.canon(n.e, n.fr) for n in g.nodes if n.k in ("call", "icall") and n.q == "SQLite::insideTransaction"} | {
            g.canon(x, n.fr) for n in g.nodes if n.k == "branch" and isinstance(n.e, dict) for x in walk(n.e) if x.get("k") == "call" and x.get("q") == "SQLite::insideTransaction"}
        self.command = next("%s#0" % p["n"] for p in g.root_fn["p"] if "BedrockCommand" in p["t"])
        self.excl = next(("%s#0" % p["n"] for p in g.root_fn["p"] if p["n"] == "exclusive" or p["t"] == "bool"), None)
        self.seen = {}

    def run(self, sc):
        """sc: begin, plugin, mock, empty, keep, rewrite, inside, excl -> list of (kind, node, toks, facts)."""
        ctx, g = self.ctx, self.g

        def leaf(e, fr, gg):
            q = e.get("q", "")
            if e.get("k") == "call":
                if q == "SQLite::beginTransaction":
                    return sc.get("begin")
                if q in PHASES:
                    return sc.get("plugin")
                if isset_of(e) == 'c:"mockRequest"':
                    return sc.get("mock")
                if q.endswith("::empty") and "obj" in e:
                    o, f = origin(e["obj"], fr, gg)
                    if isinstance(o, dict) and (o.get("q") in ("SQLite::getUncommittedQuery", "SQLite::_uncommittedQuery")):
                        return sc.get("empty")
                if q == CMD + "shouldCommitEmptyTransactions":
                    return sc.get("keep")
                if q == CMD + "shouldEnableQueryRewriting":
                    return sc.get("rewrite")
            if e.get("k") == "mem" and q == CMD + "_commitEmptyTransactions":
                return sc.get("keep")
            return None

        def events(n, t, facts, x):
            q = n.q if n.k in ("call", "icall") else ""
            if q.startswith("SQLite::") and on_db(n, g):
                m = q[8:]
                if m == "setQueryOnly":
                    v = value(arg(n, 0), n.fr, g, t, leaf)
                    t = put(t, "ro", "?" if v is None else v or None)
                elif m == "setTimeout":
                    o, f = origin(arg(n, 0), n.fr, g)
                    ok = isinstance(o, dict) and o.get("q") == CORE + "getRemainingTime"
                    t = put(t, "timeout", ("left", value(o["a"][1], f, g, t, leaf) if len(o.get("a", ())) > 1 else 0) if ok else ("other", 0))
                elif m == "clearTimeout":
                    t = put(t, "timeout", None)
                elif m == "setAbortRef":
                    o, f = origin(arg(n, 0), n.fr, g)
                    t = put(t, "abort", o.get("q", "?") if isinstance(o, dict) else "?")
                elif m == "clearAbortRef":
                    t = put(t, "abort", None)
                elif m == "setUpdateNoopMode":
                    v = value(arg(n, 0), n.fr, g, t, leaf)
                    t = put(t, "noop", "?" if v is None else v or None)
                elif m == "enableRewrite":
                    v = value(arg(n, 0), n.fr, g, t, leaf)
                    t = put(t, "rewrite", "?" if v is None else v or None)
                elif m == "setRewriteHandler":
                    o, f = origin(arg(n, 0), n.fr, g)
                    t = put(t, "handler", None if isinstance(o, dict) and o.get("k") == "null" else "plugin")
                elif m == "beginTransaction":
                    if has(t, "inside") and self.part == "ends":
                        ctx.bad("one transaction at a time", self.q, "begin-inside", n.where(), "%s begins a transaction while one may be open" % self.q, x.trace())
                    if self.part == "ends":
                        ctx.ok("the transaction is exclusive exactly when the caller asked for it", n.where())
                    a = possible(arg(n, 0), n.fr, g, t, leaf) if arg(n, 0) is not None and arg(n, 0).get("k") != "defarg" else {Explorer.ENUMS.get("SQLite::TRANSACTION_TYPE::SHARED")}
                    want = Explorer.ENUMS.get("SQLite::TRANSACTION_TYPE::" + ("EXCLUSIVE" if sc.get("excl") else "SHARED"))
                    if a - {None, want} and self.part == "ends":
                        ctx.bad("transaction type", self.q, "excl=%s" % sc.get("excl"), n.where(), "%s begins the wrong kind of transaction when exclusive is %s" % (self.q, bool(sc.get("excl"))), x.trace())
                    t = put(t, "now", "begin")
                elif m == "rollback":
                    t = put(t, "inside", None)
                    t = put(t, "rolled", 1)
            if q in PHASES:
                self.at_phase(n, t, facts, x, sc, leaf)
                t = put(put(t, "phase", 1), "now", "phase")
            if q == CORE + "_throwIfAborted" and n.k in ("call", "icall"):
                t = put(t, "asked", 1)
                t = put(t, "asked_after", 1 if has(t, "phase") else None)
            if n.k == "catch":
                t = put(t, "caught", 1)
            for p in self.inside:
                t = env_set(t, p, 1 if has(t, "inside") else 0)
            if n.k == "return" and n.fr is g.root and isinstance(n.e, dict) and "e" in n.e:
                t = env_set(t, "RET", value(n.e["e"], n.fr, g, t, leaf))
            return t
        toks = set()
        if sc.get("inside"):
            toks.add(("s", "inside", 1))
        toks = frozenset(toks)
        for p in self.inside:
            toks = env_set(toks, p, 1 if sc.get("inside") else 0)
        if self.excl and "excl" in sc:
            toks = env_set(toks, self.excl, sc["excl"])
        def edges(n, lab, m, t):
            if n.k in ("call", "icall") and lab == "exc" and n.q in ACCESSORS:
                return STOP
            # a call takes effect on its normal way out only
            if n.k in ("call", "icall") and has(t, "now") is not None:
                if has(t, "now") == "begin" and lab != "exc" and sc.get("begin"):
                    t = put(put(t, "inside", 1), "rolled", None)
                if has(t, "now") == "phase":
                    t = put(t, "returned", 1 if lab != "exc" else 0)
                t = put(t, "now", None)
                for p in self.inside:
                    t = env_set(t, p, 1 if has(t, "inside") else 0)
            return t
        return Cases(ctx, g, "none", leaf, events, edges=edges).run([g.entry], frozenset(), toks)

    def at_phase(self, n, t, facts, x, sc, leaf):
        ctx, q, ph = self.ctx, self.q, PHASES[n.q]
        w = n.where()
        if self.part != "limits":
            return
        ctx.ok("a phase runs with the limits set for it", "%s in %s" % (ph, q))
        bad = lambda d, txt: ctx.bad("phase " + ph, q, d, w, "%s calls %s %s" % (q, n.q, txt), x.trace())
        if ph == "process":
            if has(t, "ro") not in (None, 0):
                bad("read-only", "while the handle is read-only")
            if (has(t, "noop") or 0) != sc.get("mock", 0):
                bad("noop mock=%s" % sc.get("mock"), "with update-noop mode %s for a %s request" % ("on" if has(t, "noop") else "off", "mocked" if sc.get("mock") else "real"))
            if bool(has(t, "rewrite")) != bool(sc.get("rewrite")) or bool(has(t, "handler")) != bool(sc.get("rewrite")):
                bad("rewrite %s" % sc.get("rewrite"), "with query rewriting %s although the command asked for %s" % ("on" if has(t, "rewrite") else "off", "it" if sc.get("rewrite") else "none"))
        else:
            if has(t, "ro") != 1:
                bad("writable", "without making the handle read-only")
            if has(t, "noop") or has(t, "rewrite"):
                bad("modes", "with update-noop or rewriting left on")
        if ph in ("peek", "process"):
            if not has(t, "inside"):
                bad("outside", "outside a transaction")
        tm = has(t, "timeout")
        if not tm or tm[0] != "left":
            bad("timeout", "without limiting its queries to the time the command has left")
        elif tm[1] is not None and bool(tm[1]) != (ph == "process") and not sc.get("excl"):
            bad("timeout kind", "limited by the wrong timeout")
        if has(t, "abort") != CMD + "shouldAbort":
            bad("abort", "without letting the client's disconnection interrupt its queries")
        if not has(t, "asked"):
            bad("aborted", "without asking whether the command is already abandoned")


LEFT = {"ro": "the handle read-only", "timeout": "a time limit on the handle", "abort": "the handle watching the command's abort flag", "noop": "update-noop mode on", "rewrite": "query rewriting on", "handler": "the rewrite handler set"}
MODES = {"ro", "noop", "rewrite", "handler"}


def scenarios(ph):
    dims = {"prePeek": {}, "postProcess": {}, "peek": {"begin": (0, 1), "plugin": (0, 1), "excl": (0, 1)},
            "process": {"begin": (0, 1), "mock": (0, 1), "empty": (0, 1), "keep": (0, 1), "rewrite": (0, 1), "inside": (0, 1), "excl": (0, 1)}}[ph]
    ks = sorted(dims)
    for vs in itertools.product(*(dims[k] for k in ks)):
        sc = dict(zip(ks, vs))
        if sc.get("inside") and not sc.get("begin"):
            continue
        yield sc


@prop("C20")
def phase_limits(ctx):
    for q in COREFNS:
        k = Core(ctx, q, "limits")
        where = "%s:%d" % (k.g.root_fn["file"], k.g.root_fn["l"])
        ran = False
        for sc in scenarios(k.phase):
            for kind, n, t, facts in k.run(sc):
                if kind == "abort":
                    continue
                ran = ran or bool(has(t, "phase"))
                ctx.ok("nothing of a phase's set-up outlives it", "%s %s" % (q, sc))
                for m, what in LEFT.items():
                    v = has(t, m)
                    # a transaction handed to the caller to commit keeps nothing either
                    if v:
                        ctx.bad("left behind", q, m, where, "%s returns%s leaving %s" % (q, " by an exception" if kind == "throw" else "", what))
                if kind == "throw":
                    ctx.bad("exception escapes", q, "throw", where, "an exception in a command leaves %s instead of becoming its response" % q)
                if has(t, "phase") and has(t, "returned") == 1 and not has(t, "caught") and not has(t, "asked_after"):
                    ctx.bad("abandoned command", q, "after", where, "%s finishes a command without asking whether it was abandoned meanwhile" % q)
        if not ran:
            ctx.bad("phase runs", q, "never", where, "%s never calls the command's %s" % (q, k.phase))
    # the phases are called from nowhere else
    for f in ctx.p.fns.values():
        for e in calls_in(f, None, lambda e: e.get("q") in PHASES and e.get("v")):
            o = ctx.p.outer(f)
            ctx.ok("the phases are only run by the core", "%s in %s" % (e["q"], o["q"]))
            if o.get("c") != "BedrockCore" and not o["file"].startswith("BedrockCore"):
                ctx.bad("phase called elsewhere", o["q"], e["q"], "%s:%d" % (f["file"], e["l"]), "%s runs a command's %s outside the core, with none of its limits set" % (o["q"], e["q"]))
    pragma_switch(ctx, "SQLite::setQueryOnly", "query_only", TRUES, FALSES, "read-only mode and noop mode do what they say")
    pragma_switch(ctx, "SQLite::setUpdateNoopMode", "noop_update", TRUES, FALSES, "read-only mode and noop mode do what they say")
    # what a plugin's exception says reaches the response
    f = ctx.p.fn(CORE + "_handleCommandException")
    g = ctx.graph(f, lambda h, e, fr: bool(h.get("lambda")))
    cmd, exc = "%s#0" % f["p"][0]["n"], "%s#0" % f["p"][1]["n"]
    for field, target in (("method", "methodLine"), ("headers", "nameValueMap"), ("body", "content")):
        for full in (0, 1):
            def leaf(e, fr, gg):
                if e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("empty", "size") and "obj" in e and e.get("obj"):
                    c = gg.canon(e["obj"], fr)
                    if c == exc + "." + field:
                        return full if e["q"].endswith("size") else 1 - full
                return None

            def ev(n, t, facts, x):
                for path, q2, val, fr2 in response_writes(n, g, cmd):
                    if path == target:
                        src = g.canon(val, fr2) if isinstance(val, dict) else "?"
                        t = put(t, "set", "right" if src == exc + "." + field else "wrong:" + src)
                return t
            for kind, n, t, facts in Cases(ctx, g, "none", leaf, ev).run([g.entry], frozenset(), frozenset()):
                if kind != "exit":
                    continue
                ctx.ok("an exception's own status, headers and body become the response", "%s %s" % (field, "given" if full else "not given"))
                s = has(t, "set")
                if full and s != "right":
                    ctx.bad("response of an exception", f["q"], field, "%s:%d" % (f["file"], f["l"]), "the %s of a command's exception does not become the response's %s" % (field, target))
                if not full and s:
                    ctx.bad("response of an exception", f["q"], field + " kept", "%s:%d" % (f["file"], f["l"]), "an exception that says nothing about the %s overwrites the response's %s" % (field, target))


def response_writes(n, g, cmd):
    """Assignments to a whole member of the command's response: [(member, field, value, frame)]."""
    e = n.e
    if not isinstance(e, dict) or n.k not in ("assign", "call"):
        return
    if e.get("k") == "bin" and e.get("op") == "=":
        x, y = e["x"], e["y"]
    elif e.get("k") == "call" and e.get("op") == "=" and "obj" in e and e.get("a"):
        x, y = e["obj"], e["a"][0]
    else:
        return
    c = g.canon(x, n.fr)
    if c.startswith(cmd + ".response."):
        yield c[len(cmd) + 10:], None, strip(y), n.fr


@prop("C21")
def transactions(ctx):
    for q in COREFNS:
        k = Core(ctx, q, "ends")
        where = "%s:%d" % (k.g.root_fn["file"], k.g.root_fn["l"])
        done, again = k.command + ".complete", k.command + ".repeek"
        for sc in scenarios(k.phase):
            for kind, n, t, facts in k.run(sc):
                if kind == "abort":
                    continue
                ctx.ok("a transaction stays open only for the caller that is told to go on with it", "%s %s" % (q, sc))
                bad = lambda d, txt: ctx.bad("outcome of " + k.phase, q, d, where, "%s %s (%s)" % (q, txt, ", ".join("%s=%s" % (a, b) for a, b in sorted(sc.items()))))
                ret, inside, comp = env_get(t, "RET"), bool(has(t, "inside")), env_get(t, done)
                fine = has(t, "returned") == 1 and not has(t, "caught")
                if kind == "throw":
                    if inside:
                        bad("throw-open", "leaves by an exception with the transaction open")
                    continue
                if k.phase in ("prePeek", "postProcess"):
                    if inside:
                        bad("open", "leaves a transaction open")
                    if (not fine or k.phase == "postProcess") and comp != 1:
                        bad("incomplete", "returns without completing a command that %s" % ("failed" if not fine else "is done"))
                    if fine and k.phase == "prePeek" and comp is not None:
                        bad("complete", "completes a command that still has to be peeked")
                    continue
                if k.phase == "peek":
                    go = fine and sc["plugin"] == 0
                    if ret not in (RES("COMPLETE"), RES("SHOULD_PROCESS")):
                        bad("result", "returns neither COMPLETE nor SHOULD_PROCESS")
                    elif (ret == RES("SHOULD_PROCESS")) != go:
                        bad("result go=%s" % go, "%s" % ("does not ask to process a command that its peek left unfinished" if go else "asks to process a command that %s" % ("failed" if not fine else "finished in peek")))
                    if inside != (ret == RES("SHOULD_PROCESS")):
                        bad("open=%s" % inside, "returns %s with the transaction %s" % ("SHOULD_PROCESS" if ret == RES("SHOULD_PROCESS") else "COMPLETE", "open" if inside else "rolled back"))
                    if (comp == 1) != (not go):
                        bad("complete=%s" % comp, "%s the command complete" % ("marks" if comp == 1 else "does not mark"))
                    if has(t, "caught") and env_get(t, again) != 0:
                        bad("repeek", "leaves a command that failed asking to be peeked again")
                else:
                    go = fine and (not sc["empty"] or bool(sc["keep"]))
                    if ret not in (RES("NEEDS_COMMIT"), RES("NO_COMMIT_REQUIRED")):
                        bad("result", "returns neither NEEDS_COMMIT nor NO_COMMIT_REQUIRED")
                    elif (ret == RES("NEEDS_COMMIT")) != go:
                        bad("result go=%s" % go, "%s" % ("does not ask to commit what the command wrote" if go else "asks to commit the transaction of a command that %s" % ("failed" if not fine else "wrote nothing")))
                    if inside != (ret == RES("NEEDS_COMMIT")):
                        bad("open=%s" % inside, "returns %s with the transaction %s" % ("NEEDS_COMMIT" if ret == RES("NEEDS_COMMIT") else "NO_COMMIT_REQUIRED", "open" if inside else "rolled back"))
                    if comp != (0 if go else 1):
                        bad("complete=%s" % comp, "leaves the command %s" % ("complete before its commit" if go else "incomplete although nothing is left to do"))
    core_commit(ctx)


def core_commit(ctx):
    """SQLiteCore::commit: true exactly when the transaction is in the database, rolled back otherwise; the leader's state is looked at with the commit lock held."""
    f = ctx.p.fn("SQLiteCore::commit")
    g = ctx.graph(f, lambda h, e, fr: h["file"].startswith(("sqlitecluster/SQLiteCore", "libstuff/AutoScopeOnPrepare")))
    where = "%s:%d" % (f["file"], f["l"])
    lead = Explorer.ENUMS["SQLiteNodeState::LEADING"]
    # a transaction that was prepared has a hash
    pf = ctx.p.fn("SQLite::prepare")
    hashed = {"v": True}
    pg = ctx.graph(pf, lambda h, e, fr: h.get("c") == "SQLite" and h.get("acc") != 0 or bool(h.get("lambda")))

    def pev(n, t, facts, x):
        for path in written(n, pg):
            if str(path[0] if isinstance(path, tuple) else path).endswith("_uncommittedHash"):
                t = put(t, "hash", 1)
        if n.k == "return" and n.fr is pg.root and isinstance(n.e, dict) and "e" in n.e:
            v = value(n.e["e"], n.fr, pg, t)
            if v != 0 and not has(t, "hash"):
                hashed["v"] = False
        return t
    Cases(ctx, pg, "none", None, pev).run([pg.entry], frozenset(), frozenset())
    notify = [g.root_fn["p"][i]["n"] + "#0" for i in range(len(f["p"])) if f["p"][i]["t"] == "bool"]
    asks = {g.canon(e, n.fr) for n in g.nodes if isinstance(n.e, dict) for e in walk(n.e) if e.get("k") == "call" and e.get("q") == "SQLiteNode::getState"}
    ctx.require(asks, "SQLiteCore::commit never asks for the node's state")
    # the node led when the command was processed; by the time prepare has the commit lock it may have stopped
    codes = {value(n.e["y"], n.fr, g, frozenset()) for n in g.nodes if n.k == "branch" and isinstance(n.e, dict) and n.e.get("k") == "bin" and n.e["op"] in ("==", "!=", "<", ">", "<=", ">=")}
    codes = sorted({0, 1, 5, 517} | {c for c in codes if isinstance(c, int) and 0 < c < 1 << 20})
    for prep, state, err, empty, note in itertools.product((0, 1), (lead, lead + 1, lead - 1), codes, (0, 1), (0, 1)):
        if hashed["v"] and empty:
            continue

        def leaf(e, fr, gg):
            q = e.get("q", "")
            if e.get("k") == "call":
                if q == "SQLite::prepare":
                    return prep
                if q == "SQLite::commit":
                    return err
                if q.endswith("::empty") and "obj" in e:
                    o, _ = origin(e["obj"], fr, gg)
                    if isinstance(o, dict) and o.get("q") in ("SQLite::getUncommittedHash", "SQLite::_uncommittedHash"):
                        return empty
            return None

        def ev(n, t, facts, x):
            q = n.q if n.k in ("call", "icall") else ""
            if q == "SQLite::prepare":
                t = put(put(t, "prepared", 1), "handled", has(t, "handler"))
                for c in asks:
                    t = env_set(t, c, state)
            elif q == "SQLite::rollback":
                t = put(t, "open", None)
            elif q == "SQLite::setOnPrepareHandler" and n.e.get("a"):
                o, _ = origin(n.e["a"][0], n.fr, g)
                t = put(t, "handler", None if isinstance(o, dict) and o.get("k") == "null" else 1)
            elif q == "SQLite::commit":
                ctx.ok("core commits only what was prepared, and only as leader", n.where())
                if not has(t, "prepared") or not prep:
                    ctx.bad("commit order", f["q"], "unprepared", n.where(), "SQLiteCore::commit commits a transaction that was not prepared", x.trace())
                if state != lead:
                    ctx.bad("commit order", f["q"], "not leading", n.where(), "SQLiteCore::commit commits although the node stopped leading before the commit lock was taken", x.trace())
                if err == 0:
                    t = put(put(t, "open", None), "in", 1)
                if has(t, "handler"):
                    ctx.bad("commit result", f["q"], "handler", n.where(), "SQLiteCore::commit commits with the command's prepare handler still set", x.trace())
            if n.k == "return" and n.fr is g.root and isinstance(n.e, dict) and "e" in n.e:
                t = env_set(t, "RET", value(n.e["e"], n.fr, g, t, leaf))
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", leaf, ev).run([g.entry], frozenset(), frozenset([("s", "open", 1)] + [("env", x, note) for x in notify] + [("env", x, lead) for x in asks])):
            if kind != "exit":
                continue
            ctx.ok("commit says true exactly when the transaction is in the database", "prepare=%d state=%d error=%d" % (prep, state, err))
            r = env_get(t, "RET")
            sc = "prepare %s, state %s, commit error %d" % (bool(prep), "LEADING" if state == lead else "other", err)
            if r != (1 if has(t, "in") else 0):
                ctx.bad("commit result", f["q"], "%s in=%s" % (r, has(t, "in")), where, "SQLiteCore::commit returns %s although the transaction was %s (%s)" % (bool(r), "committed" if has(t, "in") else "not committed", sc))
            if has(t, "open"):
                ctx.bad("commit result", f["q"], "open", where, "SQLiteCore::commit returns with the transaction still open (%s)" % sc)
            if prep and state == lead and err == 0 and not has(t, "in"):
                ctx.bad("commit result", f["q"], "refused", where, "SQLiteCore::commit refuses a transaction that was prepared by the leader")
            if prep and has(t, "prepared") and bool(has(t, "handled")) != bool(note):
                ctx.bad("commit result", f["q"], "notify", where, "SQLiteCore::commit %s" % ("prepares without the handler the command asked for" if note else "prepares with a handler the command did not ask for"))
            if has(t, "handler"):
                ctx.bad("commit result", f["q"], "handler", where, "SQLiteCore::commit leaves the command's prepare handler set on the handle")


def text_value(e, fr, g, toks, leaf):
    """Text of a string expression built from constants, conditionals decided by the scenario, and concatenation; None when unknown."""
    e = strip_str(e)
    if not isinstance(e, dict):
        return None
    if e["k"] == "str":
        return e["v"]
    if e["k"] == "cond":
        c = value(e["c"], fr, g, toks, leaf)
        return None if c is None else text_value(e["x"] if c else e["y"], fr, g, toks, leaf)
    if e["k"] == "call" and (e.get("op") == "+" or "operator\"\"" in e.get("q", "")):
        parts = [text_value(a, fr, g, toks, leaf) for a in ([e["obj"]] if "obj" in e else []) + (e.get("a", []) if e.get("op") == "+" else e.get("a", [])[:1])]
        return None if None in parts else "".join(parts)
    for t in toks:
        if t[0] == "txt" and t[1] == g.canon(e, fr):
            return t[2]
    o, f = origin(e, fr, g)
    if o is not e and isinstance(o, dict):
        return text_value(o, f, g, toks, leaf)
    return None


def text_events(n, t, g, leaf):
    """Follow the text of local strings."""
    e = n.e
    if n.k == "decl" and isinstance(e, dict) and is_string(e.get("t", "")):
        p = g.var_path(e, n.fr)
        v = text_value(e["init"], n.fr, g, t, leaf) if isinstance(e.get("init"), dict) and not (strip(e["init"]).get("k") == "ctor" and not strip(e["init"]).get("a")) else ""
        t = frozenset(x for x in t if not (x[0] == "txt" and x[1] == p))
        return t | {("txt", p, v)} if v is not None else t
    if n.k == "call" and isinstance(e, dict) and e.get("op") in ("=", "+=") and "obj" in e and is_string(strip(e["obj"]).get("t", "")):
        p = g.canon(e["obj"], n.fr)
        old = next((x[2] for x in t if x[0] == "txt" and x[1] == p), None)
        v = text_value(e["a"][0], n.fr, g, t, leaf) if e.get("a") else None
        if e["op"] == "+=" and v is not None:
            v = None if old is None else old + v
        t = frozenset(x for x in t if not (x[0] == "txt" and x[1] == p))
        return t | {("txt", p, v)} if v is not None else t
    return t


def pragma_switch(ctx, q, name, on, off, rule):
    """A method that turns a pragma on and off: the statement it runs for true and for false."""
    f = ctx.p.fn(q)
    g = ctx.graph(f, lambda h, e, fr: h.get("c") == "SQLite" and h.get("acc") != 0 or bool(h.get("lambda")))
    param = f["p"][0]["n"] + "#0"
    for v in (1, 0):
        ran = []

        def ev(n, t, facts, x):
            t = text_events(n, t, g, None)
            if n.k == "call" and n.q == "SQuery" and len(n.e.get("a", ())) > 1:
                s = text_value(n.e["a"][1], n.fr, g, t, None)
                m = re.match(r"\s*PRAGMA\s+%s\s*=\s*(\w+)\s*;?\s*$" % name, s or "", re.I)
                t = put(t, "sql", (m.group(1).lower() if m else "other"))
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", None, ev).run([g.entry], frozenset(), frozenset([("env", param, v), ("env", "this._noopUpdateMode", 1 - v)])):
            if kind == "abort":
                continue
            ctx.ok(rule, "%s(%s)" % (q, bool(v)))
            s = has(t, "sql")
            if s not in (on if v else off):
                ctx.bad(rule, q, "value %d" % v, "%s:%d" % (f["file"], f["l"]), "%s(%s) %s" % (q, "true" if v else "false", "runs 'PRAGMA %s = %s'" % (name, s) if s and s != "other" else "does not run 'PRAGMA %s = %s'" % (name, on[0] if v else off[0])))


TRUES, FALSES = ("true", "on", "1", "yes"), ("false", "off", "0", "no")
LIM, ERR, ABORT = "SQLite::_timeoutLimit", "SQLite::_timeoutError", "SQLite::_shouldAbortPtr"


@prop("C22")
def interrupts(ctx):
    p = ctx.p
    priv = lambda h, e, fr: h.get("c") == "SQLite" and h.get("acc") != 0 or bool(h.get("lambda"))
    # the callback SQLite polls while a statement runs
    regs = [(f, e) for f in p.fns.values() for e in calls_in(f, "sqlite3_progress_handler")]
    ctx.require(regs, "no progress handler is registered")
    handler = None
    for f, e in regs:
        ctx.ok("every handle lets SQLite ask whether to go on", f["q"])
        a = e["a"]
        w = "%s:%d" % (f["file"], e["l"])
        n = const_of(a[1])
        cb = strip(a[2])
        if n is None or not re.fullmatch(r"c:\d+", n) or int(n[2:]) < 1 or cb.get("k") == "null":
            ctx.bad("registration", f["q"], "off", w, "the progress handler is switched off, so no statement can be interrupted")
        else:
            handler = next((x.get("q") for x in walk(cb) if x.get("q", "").startswith("SQLite::")), handler)
        if strip(a[3]).get("k") != "this":
            ctx.bad("registration", f["q"], "argument", w, "the progress handler is registered for something other than this handle")
    ctx.require(handler, "the progress handler is not a method of the handle")
    inits = [f for f in p.methods_of("SQLite") if f.get("isctor") and not f.get("implicit")]
    reg = p.reaches(lambda f: any(calls_in(f, "sqlite3_progress_handler")))
    for f in inits:
        if len(f["p"]) > 0:
            ctx.ok("every handle lets SQLite ask whether to go on", "constructor at %s:%d" % (f["file"], f["l"]))
            if f["id"] not in reg:
                ctx.bad("registration", f["q"], "constructor with %d parameters" % len(f["p"]), "%s:%d" % (f["file"], f["l"]), "a handle made by this constructor never has its statements interrupted")
                continue
            g = ctx.graph(f, lambda h, e, fr: h["id"] in reg and h.get("c") == "SQLite")

            def cev(n, t, facts, x):
                if n.k in ("call", "icall") and n.q == "sqlite3_progress_handler":
                    t = put(t, "registered", 1)
                return t
            for kind, n, t, facts in Cases(ctx, g, "none", None, cev).run([g.entry], frozenset(), frozenset()):
                if kind == "exit" and not has(t, "registered"):
                    ctx.bad("registration", f["q"], "path with %d parameters" % len(f["p"]), "%s:%d" % (f["file"], f["l"]), "a handle can be made by this constructor without having its statements interrupted")
    # nothing that runs a statement or checks it changes what is being watched
    watch = {"SQLite::_timeoutLimit", "SQLite::_timeoutStart", "SQLite::_shouldAbortPtr"}
    setq = ("SQLite::setTimeout", "SQLite::clearTimeout", "SQLite::setAbortRef", "SQLite::clearAbortRef")
    seen, todo = set(), [f["id"] for f in p.methods_of("SQLite") if f["q"] in (handler, "SQLite::read", "SQLite::_writeIdempotent", "SQLite::_checkInterruptErrors", "SQLite::write", "SQLite::writeIdempotent", "SQLite::writeUnmodified")]
    while todo:
        i = todo.pop()
        if i in seen or i not in p.fns:
            continue
        seen.add(i)
        f = p.fns[i]
        ctx.ok("running a statement leaves the limit and the abort flag alone", f["q"])
        gg = ctx.graph(f, lambda *z: False)
        for n in gg.nodes:
            if n.k in ("call", "assign", "icall"):
                for fld, path, c, v, y in stores(n, gg):
                    if fld in watch:
                        ctx.bad("watching", f["q"], fld, n.where(), "%s changes %s while a statement is run or checked" % (f["q"], fld))
                if n.k != "assign" and n.q in setq:
                    ctx.bad("watching", f["q"], n.q, n.where(), "%s calls %s while a statement is run or checked" % (f["q"], n.q))
        for e in fn_exprs(f):
            if e.get("k") in ("call", "lambda"):
                todo += [t for t in p.targets(e) if p.fns[t].get("c") == "SQLite" or p.fns[t].get("lambda")]

    def make_leaf(limit, now, err, ptr, flag):
        def leaf(e, fr, gg):
            k = e.get("k")
            if k == "call" and e.get("q") == "STimeNow":
                return now
            if k == "call" and "obj" in e and e.get("q", "").startswith("std::") and (e["q"].endswith("::load") or "::operator " in e["q"]) and e.get("op") not in ("*", "->", "=", "==", "!="):
                o, _ = origin(e["obj"], fr, gg)
                if isinstance(o, dict) and o.get("q") == ABORT:
                    return flag
            if k in ("mem", "var"):
                return {LIM: limit, ERR: err, ABORT: ptr, "SQLite::_timeoutStart": 10}.get(e.get("q"))
            return None
        return leaf
    f = p.fn(handler)
    g = ctx.graph(f, priv)
    for limit, now, ptr, flag in itertools.product((0, 100), (50, 100, 150), (0, 1), (0, 1)):
        leaf = make_leaf(limit, now, None, ptr, flag)

        def ev(n, t, facts, x):
            for s in written(n, g):
                if str(s[0] if isinstance(s, tuple) else s).endswith("_timeoutError"):
                    t = put(t, "noted", 1)
            if n.k == "return" and n.fr is g.root and isinstance(n.e, dict) and "e" in n.e:
                t = env_set(t, "RET", value(n.e["e"], n.fr, g, t, leaf))
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", leaf, ev).run([g.entry], frozenset(), frozenset()):
            if kind != "exit":
                continue
            late = bool(limit) and now > limit
            stop = late or bool(ptr and flag)
            ctx.ok("SQLite is told to stop exactly when the time is up or the client is gone", "limit=%d now=%d abort=%s" % (limit, now, bool(ptr and flag)))
            r = env_get(t, "RET")
            sc = "limit %s, now %d, abort flag %s" % (limit or "none", now, "set" if ptr and flag else "clear" if ptr else "none")
            if r is None or bool(r) != stop:
                ctx.bad("progress handler", f["q"], "stop=%s" % stop, "%s:%d" % (f["file"], f["l"]), "the progress handler %s (%s)" % ("lets a statement run on" if stop else "interrupts a statement that may go on", sc))
            if late and not has(t, "noted"):
                ctx.bad("progress handler", f["q"], "noted", "%s:%d" % (f["file"], f["l"]), "the progress handler interrupts a statement without noting the timeout, so it would pass for an ordinary error")
    # what the callback left is turned into an exception
    f = p.fn("SQLite::_checkInterruptErrors")
    g = ctx.graph(f, priv)
    for limit, now, err, ptr, flag in itertools.product((0, 100), (50, 150), (0, 7), (0, 1), (0, 1)):
        leaf = make_leaf(limit, now, None, ptr, flag)
        start = frozenset([("env", "this._timeoutError", err)])

        def ev(n, t, facts, x):
            if n.k == "throw":
                t = put(t, "threw", next((c for c in ("timeout_error", "SException") if c in str(n.e.get("t", "")) + str(n.e.get("c", ""))), "other"))
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", leaf, ev).run([g.entry], frozenset(), start):
            if kind == "abort":
                continue
            late = bool(limit) and (now > limit or err > 0)
            gone = bool(ptr and flag)
            ctx.ok("an interrupted statement ends in an exception", "limit=%d now=%d noted=%d abort=%s" % (limit, now, err, gone))
            sc = "limit %s, now %d, timeout %snoted, abort flag %s" % (limit or "none", now, "" if err else "not ", "set" if gone else "clear")
            if (kind == "throw") != (late or gone):
                ctx.bad("interrupt check", f["q"], "throws=%s" % (late or gone), "%s:%d" % (f["file"], f["l"]), "_checkInterruptErrors %s (%s)" % ("passes over an interrupted statement" if late or gone else "throws although nothing was interrupted", sc))
            elif kind == "throw" and late and not gone and has(t, "threw") != "timeout_error":
                ctx.bad("interrupt check", f["q"], "kind", "%s:%d" % (f["file"], f["l"]), "_checkInterruptErrors does not report a timeout as one (%s)" % sc)
    # the setters
    setters = [h for h in p.methods_of("SQLite") if h["q"] == "SQLite::setTimeout"]
    for h in setters:
        g = ctx.graph(h, lambda x, e, fr: x["q"] == "SQLite::setTimeout" or priv(x, e, fr))
        par = h["p"][0]["n"] + "#0"

        def ev(n, t, facts, x):
            if n.k == "assign" and isinstance(n.e, dict) and n.e.get("k") == "bin" and n.e["op"] == "=":
                o = strip(n.e["x"])
                if o.get("q") == LIM:
                    l = linear(n.e["y"], n.fr, g)
                    good = False
                    if l is not None and l[1] == 0 and len(l[0]) == 2 and set(l[0].values()) == {1}:
                        ks = " ".join(sorted(l[0]))
                        good = ("STimeNow" in ks or "_timeoutStart" in ks) and (par in ks or "count" in ks)
                    t = put(t, "limit", "ok" if good else "bad")
                if o.get("q") == ERR:
                    t = put(t, "err", const_of(n.e["y"]))
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", None, ev).run([g.entry], frozenset(), frozenset()):
            ctx.ok("setting, clearing and watching work on the fields the check reads", h["q"])
            if has(t, "limit") != "ok":
                ctx.bad("setters", h["q"], "limit", "%s:%d" % (h["file"], h["l"]), "setTimeout does not set the limit to now plus the time given")
            if has(t, "err") != "c:0":
                ctx.bad("setters", h["q"], "error", "%s:%d" % (h["file"], h["l"]), "setTimeout keeps the timeout noted for an earlier command")
    for q, fields in (("SQLite::clearTimeout", ("_timeoutLimit", "_timeoutError")), ("SQLite::clearAbortRef", ("_shouldAbortPtr",)), ("SQLite::setAbortRef", ("_shouldAbortPtr",))):
        h = p.fn(q)
        g = ctx.graph(h, priv)

        def ev(n, t, facts, x):
            if n.k == "assign" and isinstance(n.e, dict) and n.e.get("k") == "bin" and n.e["op"] == "=":
                nm = strip(n.e["x"]).get("n")
                if nm in fields:
                    y = strip(n.e["y"])
                    o, fr2 = origin(n.e["y"], n.fr, g)
                    par = isinstance(o, dict) and o.get("k") == "var" and o.get("vk") == "param"
                    t = put(t, nm, "null" if y.get("k") == "null" or const_of(y) == "c:0" else "param" if par else "other")
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", None, ev).run([g.entry], frozenset(), frozenset()):
            for fld in fields:
                ctx.ok("setting, clearing and watching work on the fields the check reads", "%s %s" % (q, fld))
                if has(t, fld) != ("param" if q.endswith("setAbortRef") else "null"):
                    ctx.bad("setters", q, fld, "%s:%d" % (h["file"], h["l"]), "%s does not %s %s" % (q, "set" if q.endswith("setAbortRef") else "clear", fld))
    # every statement of a command is followed by the check before its result is used
    for f in sorted((f for f in p.methods_of("SQLite") if f["q"] in ("SQLite::read", "SQLite::_writeIdempotent")), key=lambda f: f["l"]):
        if not any(calls_in(f, "SQuery")):
            continue
        g = ctx.graph(f, lambda h, e, fr: bool(h.get("lambda")) or h.get("c") == "SQLite" and h.get("acc") != 0 and h["q"] != "SQLite::_checkInterruptErrors" and h["q"] != f["q"])
        ran = {"n": 0}

        def ev(n, t, facts, x):
            q = n.q if n.k in ("call", "icall") else ""
            if q == "SQuery":
                user = n.fr is g.root or True
                o, fr2 = origin(n.e["a"][1], n.fr, g)
                if isinstance(o, dict) and (o.get("vk") == "param" or o.get("q") == "SQLite::_rewrittenQuery"):
                    ran["n"] += 1
                    t = put(t, "ran", 1)
                    t = put(t, "checked", None)
            elif q == "SQLite::_checkInterruptErrors":
                t = put(t, "checked", 1)
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", None, ev).run([g.entry], frozenset(), frozenset()):
            if kind != "exit" or not has(t, "ran"):
                continue
            ctx.ok("no result of a command's statement is used before asking whether it was interrupted", "%s:%d" % (f["file"], f["l"]))
            if not has(t, "checked"):
                ctx.bad("unchecked statement", f["q"], "%d parameters" % len(f["p"]), "%s:%d" % (f["file"], f["l"]), "%s can return the result of a statement that was interrupted" % f["q"])
        if not ran["n"]:
            ctx.undecided.append("%s: no statement of the caller's found" % f["q"])


# ---------------------------------------------------------------------------------------------------------------------------------------------
# C23 / C24: what the server does with a command (BedrockServer::runCommand)

SRV = "BedrockServer::"
RUNKEEP = {SRV + x for x in ("_reply", "_handleIfStatusOrControlCommand", "_wouldCrash", "_generateCrashMessage", "dbReadyToHandleRequests", "getState", "handleSocket", "getThreadPool",
                             "_acceptSockets", "shouldBlockNewCommands", "runCommand", "buildCommandFromRequest", "getCommandFromPlugins", "_control", "_status", "warnCrash", "crashIdentifier")}
STATES = ("LEADING", "FOLLOWING", "STANDINGDOWN", "SYNCHRONIZING", "SEARCHING")
KEEPERS = {"BedrockCommandQueue::push", "BedrockBlockingCommandQueue::push", "SScheduledPriorityQueue::push", "BedrockConflictManager"}
UP = "std::unique_ptr"


def unwrap(e):
    """An expression without moves, forwards, copies and pair-building around it, as the list of what is inside."""
    e = strip(e)
    if not isinstance(e, dict):
        return []
    if e.get("k") == "call" and e.get("q") in ("std::move", "std::forward") and e.get("a"):
        return unwrap(e["a"][0])
    if e.get("k") in ("ctor", "init") or e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("make_pair", "pair", "make_tuple"):
        return [y for a in e.get("a", ()) for y in unwrap(a)]
    return [e]


def moved(e):
    """Sub-expressions that are moved from inside e (not looking into other calls than pair-building and moves)."""
    e = strip(e)
    if not isinstance(e, dict):
        return []
    if e.get("k") == "call" and e.get("q") in ("std::move", "std::forward") and e.get("a"):
        return [strip(e["a"][0])]
    if e.get("k") in ("ctor", "init") or e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("make_pair", "pair", "make_tuple"):
        return [y for a in e.get("a", ()) for y in moved(a)]
    return []


def is_keeper(q):
    """Somewhere a command can wait: a queue or a container of the server."""
    m = q.split("::")[-1]
    return any(q.startswith(k) for k in KEEPERS) or re.match(r"(std::(multi)?map<|std::list<|std::deque<|std::queue<|std::vector<|std::(multi)?map::|std::list::|std::deque::|std::vector::)", q) is not None and m in ("insert", "emplace", "push", "push_back", "emplace_back", "push_front")


class Running:
    """Explores BedrockServer::runCommand; part selects which obligations are reported."""

    def __init__(self, ctx, part):
        self.ctx, self.part = ctx, part
        p = ctx.p
        self.q = SRV + "runCommand"
        self.g = ctx.graph(self.q, lambda h, e, fr: bool(h.get("lambda")) and h["file"] == "BedrockServer.cpp" or h["q"].startswith(SRV) and h["q"] not in RUNKEEP and h["file"] == "BedrockServer.cpp")
        g = self.g
        pr = next(a for a in g.root_fn["p"] if "BedrockCommand" in a["t"])
        self.start = pr["n"] + "#0"
        self.uses = {}
        for n in g.nodes:
            es = [n.e] if isinstance(n.e, dict) and n.k != "log" else []
            if n.k == "log" and isinstance(n.e, dict):
                es = [v for v in n.e.values() if isinstance(v, dict)] + [x for v in n.e.values() if isinstance(v, list) for x in v if isinstance(x, dict)]
            s = set()
            for e in es:
                for x in walk(e):
                    if x.get("k") == "call" and x.get("op") in ("->", "*") and "obj" in x and "BedrockCommand" in x["obj"].get("t", "unique_ptr<BedrockCommand"):
                        s.add(g.canon(x["obj"], n.fr))
            if s and n.k not in ("dtor", "decl"):
                self.uses[n.i] = s
        # waits and counters decide nothing here
        self.numbers = {g.var_path(n.e, n.fr) for n in g.nodes if n.k == "decl" and isinstance(n.e, dict) and re.match(r"(const )?(unsigned|int|long|size_t|u?int\d+_t|short|char|std::chrono|double)", n.e.get("t", ""))}

    def fork(self, n, t, vals, tag):
        c = self.g.canon(n.e, n.fr)
        if has(t, "last"):      # the result of an earlier call lives on only where it was stored
            t = env_set(t, has(t, "last"), None)
        return [put(put(env_set(t, c, v), "now", (tag, v)), "last", c) for v in vals]

    def bad(self, part, rule, n, detail, text, x):
        if part == self.part:
            self.ctx.bad(rule, self.q, detail, n.where(), text, x.trace())

    def ok(self, part, rule, inst):
        if part == self.part:
            self.ctx.ok(rule, inst)

    def run(self, client, upgrade):
        ctx, g = self.ctx, self.g
        self.client = client

        def leaf(e, fr, gg):
            if e.get("k") == "mem" and e.get("q", "").endswith("::initiatingClientID"):
                return client
            if e.get("k") == "cast" and "BedrockServerUpgradeCommand" in e.get("t", ""):
                return upgrade
            return None

        def own(t):
            return has(t, "own")

        def events(n, t, facts, x):
            q = n.q if n.k in ("call", "icall") else ""
            w = n.where()
            owner = has(t, "owner")
            if n.k in ("assign", "decl"):
                t = frozenset(y for y in t if not (y[0] == "env" and (y[1] in self.numbers or y[1].endswith(".size()"))))
            if n.k == "catch":
                t = put(t, "unw", None)
            # touching a command that is somebody else's by now
            if own(t) == "gone" and n.i in self.uses and owner in self.uses[n.i]:
                self.bad("answers", "a command handed on is not touched again", n, "use after move", "runCommand uses the command after handing it on", x)
            if n.k == "dtor" and isinstance(n.e, dict) and not has(t, "unw"):
                if g.var_path(n.e, n.fr) == owner and own(t) == "own":
                    if not (client < 0 and env_get(t, owner + ".complete") == 1):
                        self.bad("answers", "every command is answered or kept", n, "dropped", "runCommand drops a command that was neither answered nor queued", x)
                    t = put(t, "own", "dropped")
                if n.e.get("c") == "SQLiteScopedHandle" and has(t, "txn"):
                    self.bad("runs", "no transaction stays open on a handle that is given back", n, "open transaction", "the handle goes back to the pool with the command's transaction still open", x)
            if n.k == "decl" and isinstance(n.e, dict) and owner and own(t) == "own" and isinstance(n.e.get("init"), dict):
                if any(g.canon(m, n.fr) == owner for m in moved(n.e["init"])) and not n.e.get("t", "").endswith("&") and not n.e.get("t", "").endswith("&&"):
                    t = put(t, "owner", g.var_path(n.e, n.fr))
            if n.k == "return" and n.fr is g.root:
                pass
            if not q:
                return t
            obj = n.e.get("obj")
            args = n.e.get("a", [])
            mine = [a for a in args if isinstance(a, dict) and owner and g.canon(strip(a), n.fr) == owner]
            if q == "SData::operator[]" and obj is not None and g.canon(obj, n.fr) == "%s.response" % owner and args and const_of(strip_str(args[0])) == 'c:"commitCount"':
                t = put(t, "cc", 1)
            if n.k == "icall":
                return t
            if q == SRV + "getState" or q.endswith("::getState"):
                return self.fork(n, t, [Explorer.ENUMS["SQLiteNodeState::" + s] for s in STATES], "state")
            if q == SRV + "dbReadyToHandleRequests":
                return self.fork(n, t, (0, 1), "ready")
            if q == CORE + "isTimedOut" and mine:
                return self.fork(n, t, (0, 1), "timedout")
            if q == SRV + "_handleIfStatusOrControlCommand" and mine:
                return self.fork(n, t, (0, 1), "control")
            running = q in (CORE + "peekCommand", CORE + "processCommand", CORE + "prePeekCommand", CORE + "postProcessCommand")
            if running or q == "SQLiteCore::commit":
                m = q.split("::")[-1]
                self.ok("runs", "phases run in order, on a command that still has to run", "%s at %s" % (m, w))
                if own(t) != "own":
                    self.bad("runs", "phases run in order", n, "%s %s" % (m, own(t)), "runCommand calls %s on a command that was already %s" % (m, "answered" if own(t) == "answered" else "handed on"), x)
                if has(t, "done") and m != "postProcessCommand":
                    self.bad("runs", "a command runs once", n, m, "runCommand calls %s on a command whose %s" % (m, "commit succeeded" if has(t, "done") == "commit" else "answer came from a peer"), x)
                if has(t, "dead") and m != "postProcessCommand":
                    self.bad("runs", "a command that timed out does not run", n, m, "runCommand calls %s on a command that timed out" % m, x)
                if has(t, "control") != 0:
                    self.bad("runs", "status and control commands never reach a plugin", n, m, "runCommand calls %s before looking for a status or control command" % m, x)
                if m in ("peekCommand", "prePeekCommand"):
                    if has(t, "txn"):
                        self.bad("runs", "a transaction is settled before the next attempt", n, m, "runCommand calls %s while the transaction of the last attempt is open" % m, x)
                    if m == "prePeekCommand":
                        return self.fork(n, t, (0, 1), "prePeek")
                    return self.fork(n, t, (RES("COMPLETE"), RES("SHOULD_PROCESS")), "peek")
                if m == "postProcessCommand":
                    if has(t, "txn") or env_get(t, owner + ".complete") != 1:
                        self.bad("runs", "phases run in order", n, m, "postProcess runs on a command that is not complete", x)
                    return self.fork(n, t, (1,), "postProcess")
                if has(t, "lead") != 1:
                    self.bad("runs", "only a leader writes", n, m, "runCommand calls %s without having seen the node LEADING since the command was peeked" % m, x)
                if m == "processCommand":
                    if has(t, "ready") != 1 and not upgrade:
                        self.bad("runs", "nothing is written before the upgrade", n, m, "runCommand processes a command without having seen the database ready since it was peeked", x)
                    return self.fork(n, t, [RES(r) for r in ("NEEDS_COMMIT", "NO_COMMIT_REQUIRED", "SERVER_NOT_LEADING")], "process")
                if has(t, "prep") != 1:
                    self.bad("runs", "only what asked for it is committed", n, m, "runCommand commits although processCommand did not ask for it", x)
                return self.fork(n, t, (0, 1), "commit")
            if q.endswith("::rollback") and (q.startswith("SQLiteCore") or q.startswith("SQLite::") or q.startswith("BedrockCore")):
                t = put(put(t, "txn", None), "prep", None)
            elif q == "SQLiteScopedHandle::release" or q.startswith("SQLitePool::returnToPool"):
                if has(t, "txn"):
                    self.bad("runs", "no transaction stays open on a handle that is given back", n, "release", "the handle goes back to the pool with the command's transaction still open", x)
            elif q == "SQLiteClusterMessenger::runOnPeer" and (mine or any(owner and g.canon(strip(a), n.fr).lstrip("*") == owner for a in args)):
                self.ok("runs", "phases run in order, on a command that still has to run", "runOnPeer at %s" % w)
                if has(t, "txn"):
                    self.bad("runs", "a transaction is settled before the command goes elsewhere", n, "runOnPeer", "runCommand sends the command to a peer while its transaction is open here", x)
                if has(t, "done"):
                    self.bad("runs", "a command runs once", n, "runOnPeer", "runCommand sends a command to a peer although %s" % ("it was committed here" if has(t, "done") == "commit" else "another peer answered it"), x)
                if own(t) != "own":
                    self.bad("runs", "phases run in order", n, "runOnPeer %s" % own(t), "runCommand sends a command to a peer that was already answered or handed on", x)
                if has(t, "control") != 0:
                    self.bad("runs", "status and control commands never reach a plugin", n, "runOnPeer", "runCommand sends a command to a peer before looking for a status or control command", x)
                return self.fork(n, t, (0, 1), "peer")
            elif q.endswith("::notifyCommit"):
                if not has(t, "notify"):
                    self.bad("runs", "followers hear of every commit", n, "early", "runCommand announces a commit before there is one", x)
                t = put(t, "notify", None)
            elif q == CMD + "waitForHTTPSRequests" and has(t, "txn"):
                self.bad("runs", "a transaction is settled before the next attempt", n, "https", "runCommand waits for HTTPS requests with a transaction open", x)
            elif q == SRV + "_reply" and mine:
                self.ok("answers", "every command is answered or kept", "_reply at %s" % w)
                if own(t) != "own":
                    self.bad("answers", "no command is answered twice", n, "%s" % own(t), "runCommand answers a command that was already %s" % ("answered" if own(t) == "answered" else "handed on"), x)
                if has(t, "txn"):
                    self.bad("runs", "a command is answered after its transaction ended", n, "reply", "runCommand answers a command whose transaction is still open", x)
                if has(t, "done") == "commit" and (env_get(t, owner + ".complete") != 1):
                    self.bad("answers", "a committed command is answered as complete", n, "incomplete", "the answer to a committed command goes out before it is marked as complete", x)
                if has(t, "done") == "commit" and not has(t, "cc"):
                    self.bad("answers", "the answer to a commit carries its commit count", n, "commitCount", "the answer to a committed command carries no commitCount, so a follow-up on a follower can miss it", x)
                t = put(t, "own", "answered")
            elif owner and any(g.canon(m, n.fr) == owner for a in args if isinstance(a, dict) for m in moved(a)) and not q.startswith(UP) and q.split("::")[-1] not in ("move", "forward", "make_pair", "pair", "make_tuple"):
                self.ok("answers", "a command is only handed to a queue", "%s at %s" % (q.split("<")[0], w))
                if own(t) != "own":
                    self.bad("answers", "a command handed on is not touched again", n, "moved twice", "runCommand hands on a command that was already %s" % ("answered" if own(t) == "answered" else "handed on"), x)
                if not is_keeper(q):
                    self.bad("answers", "every command is answered or kept", n, q, "runCommand gives the command to %s, which is no queue" % q, x)
                if has(t, "done"):
                    self.bad("runs", "a command runs once", n, "queue", "runCommand queues a command again although %s" % ("it was committed" if has(t, "done") == "commit" else "a peer answered it"), x)
                if has(t, "dead"):
                    self.bad("runs", "a command that timed out does not run", n, "queue", "runCommand queues a command that timed out", x)
                if has(t, "txn"):
                    self.bad("runs", "a transaction is settled before the command goes elsewhere", n, "queue", "runCommand queues a command while its transaction is open", x)
                t = put(t, "now", ("gone", 1))
            return t

        def edges(n, lab, m, t):
            if lab == "exc":
                return put(put(t, "now", None), "unw", 1)
            if n.k == "branch" and lab in ("T", "F") and has(t, "owner") and n.x[0] == ("t", has(t, "owner") + ".complete") and env_get(t, n.x[0][1]) is None:
                return env_set(t, n.x[0][1], int((lab == "T") == n.x[1]))
            if n.k not in ("call", "icall") or has(t, "now") is None:
                return t
            tag, v = has(t, "now")
            t = put(t, "now", None)
            owner = has(t, "owner")
            comp = owner + ".complete" if owner else None
            if tag == "gone":
                return put(t, "own", "gone")
            if tag == "state":
                return put(t, "lead", 1 if v == Explorer.ENUMS["SQLiteNodeState::LEADING"] else 0)
            if tag == "ready":
                return put(t, "ready", v)
            if tag == "timedout":
                if v:
                    return env_set(put(t, "dead", 1), comp, 1)
                return t
            if tag == "control":
                t = put(t, "control", v)
                return put(t, "own", "answered") if v else t
            if tag == "prePeek":
                return env_set(t, comp, v)
            if tag == "postProcess":
                return env_set(t, comp, 1)
            if tag == "peek":
                if v == RES("SHOULD_PROCESS"):
                    return env_set(put(put(put(t, "txn", 1), "lead", None), "ready", None), comp, 0)
                return env_set(t, comp, 1)
            if tag == "process":
                if v == RES("NEEDS_COMMIT"):
                    return env_set(put(put(t, "prep", 1), "txn", 1), comp, 0)
                if v == RES("NO_COMMIT_REQUIRED"):
                    return env_set(put(t, "txn", None), comp, 1)
                return env_set(t, comp, 0)
            if tag == "commit":
                t = put(put(t, "txn", None), "prep", None)
                return put(put(t, "done", "commit"), "notify", 1) if v else t
            if tag == "peer":
                if v:
                    return env_set(put(t, "done", "peer"), comp, 1)
                return env_set(t, comp, None)
            return t
        toks = frozenset({("s", "own", "own"), ("s", "owner", self.start)})
        # only what decides: values of the retry loop (waits, counters) stay undecided
        for kind, n, t, facts in Cases(ctx, g, "none", leaf, events, track="^$", edges=edges).run([g.entry], frozenset(), toks, cap=600000):
            if kind != "exit":
                continue
            o = own(t)
            where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
            self.ok("answers", "every command is answered or kept", "%s client=%d upgrade=%d" % (o, client, upgrade))
            if o == "own" and not (client < 0 and env_get(t, has(t, "owner") + ".complete") == 1):
                self.ctx.bad("every command is answered or kept", self.q, "exit", where, "runCommand can return without having answered or queued the command") if self.part == "answers" else None
            self.ok("runs", "followers hear of every commit", "exit client=%d upgrade=%d" % (client, upgrade))
            if has(t, "notify") and self.part == "runs":
                ctx.bad("followers hear of every commit", self.q, "exit", where, "runCommand can return without announcing a commit to the sync node")


def running(ctx, part):
    r = Running(ctx, part)
    ks = {n.q for n in r.g.nodes if n.k in ("call", "icall")}
    for need in (CORE + "peekCommand", CORE + "processCommand", "SQLiteCore::commit", SRV + "_reply"):
        if need not in ks:
            ctx.undecided.append("runCommand: %s is not called" % need)
            return
    for client in (1, -1):
        for upgrade in (0, 1):
            r.run(client, upgrade)


@prop("C23")
def c23(ctx):
    running(ctx, "runs")


@prop("C24")
def c24(ctx):
    running(ctx, "answers")
    replying(ctx)
    dispatch(ctx, "answers")
    owners(ctx)
    building(ctx)


@prop("C25")
def c25(ctx):
    dispatch(ctx, "source")
    sources(ctx)


def equals_lit(e):
    """(subject expression, literal) of SIEquals(x, "lit"), x == "lit" or "lit" == x."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "call" and (e.get("q") in ("SIEquals", "STIEquals") or e.get("op") == "=="):
        a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
        for x, y in ((a[0], a[1]), (a[1], a[0])) if len(a) == 2 else ():
            s = strip_str(y)
            if isinstance(s, dict) and s.get("k") == "str":
                return x, s["v"]
    return None


def header_of(e):
    """(map expression, name) of `m["name"]`."""
    e = strip(e)
    if isinstance(e, dict) and e.get("k") == "call" and e.get("op") == "[]" and "obj" in e and e.get("a"):
        c = const_of(strip_str(e["a"][0]))
        if c and c.startswith('c:"'):
            return e["obj"], c[3:-1]
    return None


def behind(e, fr, g, d=0):
    """Like origin, but only through locals and parameters: calls stay."""
    e = strip_str(e) if isinstance(strip(e), dict) and strip(e).get("k") == "ctor" and (strip(e).get("copy") or strip(e).get("move")) else strip(e)
    if isinstance(e, dict) and d < 20 and e.get("k") == "var" and e.get("id"):
        kind, v, f = g.lookup(e["id"], fr)
        if kind == "env":
            return behind(v[0], v[1], g, d + 1)
        if v and v.get("decl") and isinstance(v["decl"].get("init"), dict) and not v.get("range") and (not v["assigned"] or v["decl"]["t"].endswith("&")):
            return behind(v["decl"]["init"], f, g, d + 1)
    return e, fr


def hdr(e, fr, g):
    return header_of(e) or header_of(behind(e, fr, g)[0])


def one(ctx, g, typ):
    return next((a["n"] + "#0" for a in g.root_fn["p"] if typ in a["t"]), None)


def replying(ctx):
    """BedrockServer::_reply: exactly one response, the command's own, or the failure callback."""
    q = SRV + "_reply"
    g = ctx.graph(q, lambda h, e, fr: h["file"] == "BedrockServer.cpp" and (bool(h.get("lambda")) or h["q"].startswith(SRV) and h["acc"] != 0))
    cmd = one(ctx, g, "BedrockCommand")
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    RUN = next(v for k, v in Explorer.ENUMS.items() if k.startswith("BedrockServer::") and k.endswith("::RUNNING"))
    fns = {"send": 0, "failed": 0, "plugin": 0}
    import itertools
    for client, sock, plugin, running, close, sent in itertools.product((1, -1), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1)):
        def leaf(e, fr, gg):
            k, qq = e.get("k"), e.get("q", "")
            if k == "mem" and qq.endswith("::initiatingClientID"):
                return client
            if k == "mem" and qq == SRV + "_shutdownState":
                return RUN if running else RUN + 1
            if k == "mem" and qq == CMD + "socket":
                return sock
            el = equals_lit(e)
            if el:
                h = hdr(el[0], fr, gg)
                if h and h[1].lower() == "connection":
                    return close if el[1].lower() == "close" else None if close else None
            if k == "call" and qq.endswith("::empty") and "obj" in e:
                h = hdr(e["obj"], fr, gg)
                if h and h[1] == "plugin":
                    return int(not plugin)
            if k == "call" and qq in ("STCPManager::Socket::send", "SHTTPSManager::Socket::send"):
                return sent
            return None

        def inc(t, name):
            return put(t, name, min(2, (has(t, name) or 0) + 1))

        def events(n, t, facts, x):
            if n.k not in ("call", "icall"):
                return t
            qq = n.q
            if qq.endswith("Socket::send"):
                fns["send"] += 1
                o, f = behind(arg(n, 0), n.fr, g)
                c = g.canon(o["obj"], f) if isinstance(o, dict) and o.get("q") == "SData::serialize" and "obj" in o else None
                if c != cmd + ".response" and plugin == 0:
                    cc = None
                    if isinstance(o, dict):
                        oo = [y for y in walk(o) if y.get("k") == "mem" and y.get("q", "").endswith("Command::response")]
                        cc = bool(oo)
                    if not cc:
                        ctx.bad("a client gets its own command's response", q, "send", n.where(), "_reply sends something else than the command's response", x.trace())
                return inc(t, "send")
            if qq.endswith("::handleFailedReply"):
                fns["failed"] += 1
                return inc(t, "failed")
            if qq.endswith("::onPortRequestComplete"):
                fns["plugin"] += 1
                return inc(t, "plugin")
            if qq.endswith("Socket::shutdown"):
                return inc(t, "shut")
            if qq == "SData::operator[]" and "obj" in n.e and g.canon(n.e["obj"], n.fr) == cmd + ".response" and const_of(strip_str(arg(n, 0))) == 'c:"Connection"':
                if has(t, "send") or has(t, "plugin"):
                    return t
                return put(t, "closehdr", 1)
            return t
        for kind, n, t, facts in Cases(ctx, g, "none", leaf, events, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" else t).run([g.entry], frozenset(), frozenset()):
            if kind != "exit":
                continue
            s, f, pl, sh = (has(t, k) or 0 for k in ("send", "failed", "plugin", "shut"))
            inst = "client %d, %s, %s, %s%s, send %s" % (client, "socket" if sock else "no socket", "plugin" if plugin else "no plugin", "running" if running else "shutting down", ", close" if close else "", "ok" if sent else "fails")
            if client < 0 or not sock:
                want = (0, 1, 0)
            elif plugin:
                want = (0, 0, 1)
            else:
                want = (1, 0 if sent else 1, 0)
            ctx.ok("a reply is one response, or one failure callback", inst)
            if (s, f, pl) != want:
                ctx.bad("a reply is one response, or one failure callback", q, "%d%d%d instead of %d%d%d" % ((s, f, pl) + want), where,
                        "_reply sends %d responses, calls handleFailedReply %d times and the plugin %d times, for: %s" % (s, f, pl, inst))
            if client >= 0 and sock:
                ctx.ok("the connection is closed if asked or shutting down", inst)
                if bool(sh) != bool(close or not running):
                    ctx.bad("the connection is closed if asked or shutting down", q, "shutdown", where, "_reply %s the connection, for: %s" % ("closes" if sh else "does not close", inst))
                if not running and not has(t, "closehdr"):
                    ctx.bad("the connection is closed if asked or shutting down", q, "header", where, "the response does not announce that the connection gets closed, for: %s" % inst)
    ctx.need("a reply is one response, or one failure callback", 3)


OPEN = {'c:"SuppressCommandPort"', 'c:"ClearCommandPort"', 'c:"GetCommitHash"', 'c:"CRASH_COMMAND"'}


def method_test(e, fr, g):
    """The name a method line is compared with, as a canonical text."""
    e = strip(e)
    if not (isinstance(e, dict) and e.get("k") == "call" and (e.get("q") in ("SIEquals", "STIEquals") or e.get("op") == "==")):
        return None
    a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
    for x, y in ((a[0], a[1]), (a[1], a[0])) if len(a) == 2 else ():
        o = behind(x, fr, g)[0]
        if isinstance(o, dict) and o.get("k") == "mem" and o.get("q") == "SData::methodLine" or isinstance(o, dict) and o.get("q") == "SData::getVerb":
            return const_of(strip_str(y)) or g.canon(strip_str(y), fr)
    return None


def methods_tested(ctx, q):
    g = ctx.graph(q, lambda h, e, fr: False)
    out = set()
    for n in g.nodes:
        if n.k == "branch":
            for x in walk(n.e):
                m = method_test(x, n.fr, g)
                if m:
                    out.add(m)
    return out


def dispatch(ctx, part):
    """BedrockServer::_handleIfStatusOrControlCommand, for every method it may meet and every source."""
    q = SRV + "_handleIfStatusOrControlCommand"
    keep = {SRV + x for x in ("_status", "_control", "_reply")}
    g = ctx.graph(q, lambda h, e, fr: h["file"] == "BedrockServer.cpp" and h["q"] not in keep)
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    cmd = one(ctx, g, "BedrockCommand")
    status, control = methods_tested(ctx, SRV + "_status"), methods_tested(ctx, SRV + "_control")
    ctx.require(len(status) >= 4 and len(control) >= 10, "methods of _status and _control not found")
    for name in sorted(status | control | {'c:"Query"'}):
        for remote in (0, 1):
            kind = "status" if name in status else "control" if name in control else "other"

            def leaf(e, fr, gg):
                if e.get("k") != "call":
                    return None
                if e.get("q", "").endswith("::empty") and "obj" in e:
                    h = hdr(e["obj"], fr, gg)
                    if h and h[1] == "_source":
                        return int(not remote)
                m = method_test(e, fr, gg)
                if m:
                    return int(m == name)
                el = equals_lit(e)
                if el and el[1] == "":
                    h = hdr(el[0], fr, gg)
                    if h and h[1] == "_source":
                        return int(not remote)
                return None

            def events(n, t, facts, x):
                if n.k not in ("call", "icall"):
                    return t
                for f in ("_status", "_control", "_reply"):
                    if n.q == SRV + f:
                        if f != "_reply" and has(t, "_reply") and part == "answers":
                            ctx.bad("status and control commands are run, then answered", q, f, n.where(), "%s runs after the command was answered" % f, x.trace())
                        t = put(t, f, min(2, (has(t, f) or 0) + 1))
                if "obj" in n.e and n.e.get("op") == "=" and g.canon(n.e["obj"], n.fr) == cmd + ".response.methodLine":
                    s = strip_str(arg(n, 0))
                    t = put(t, "line", s["v"] if isinstance(s, dict) and s.get("k") == "str" else None)
                return t
            for k, n, t, facts in Cases(ctx, g, "none", leaf, events, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" else t).run([g.entry], frozenset(), frozenset()):
                if k != "exit":
                    continue
                nm = name.split('"')[1] if '"' in name else name
                inst = "%s%s" % (nm, " from another host" if remote else "")
                ret = env_get(t, "ret%d" % g.root.uid)
                st, co, re_ = (has(t, f) or 0 for f in ("_status", "_control", "_reply"))
                allowed = kind == "control" and (not remote or name in OPEN)
                want = {"status": (1, 0, 1), "control": (0, int(allowed), 1), "other": (0, 0, 0)}[kind]
                if part == "answers":
                    ctx.ok("status and control commands are run, then answered", inst)
                    if re_ != want[2] or st != want[0]:
                        ctx.bad("status and control commands are run, then answered", q, inst, where, "%s is answered %d times and _status runs %d times" % (inst, re_, st))
                    if ret is not None and ret != int(kind != "other"):
                        ctx.bad("status and control commands are run, then answered", q, "return " + inst, where, "_handleIfStatusOrControlCommand returns %s for %s" % (bool(ret), inst))
                else:
                    ctx.ok("control commands run only for the local host or if allowed from anywhere", inst)
                    if co != want[1]:
                        ctx.bad("control commands run only for the local host or if allowed from anywhere", q, inst, where, "%s runs _control %d times" % (inst, co))
                    if kind == "control" and not allowed and not (has(t, "line") or "").startswith("4"):
                        ctx.bad("control commands run only for the local host or if allowed from anywhere", q, "answer", where, "a refused control command is not answered with an error")


SOURCES = {SRV + "buildCommandFromRequest", "BedrockCommandQueue::get", "BedrockCommandQueue::_dequeue"}


def lambda_moves(p, e, path, fr, g):
    """A lambda in this expression that moves the variable `path` on."""
    for x in walk(e):
        if x.get("k") == "lambda":
            for f in p.fns.values():
                if f["id"] == x.get("f") or f.get("lambda") and f["file"] and f["l"] == x.get("l"):
                    for y in fn_exprs(f):
                        if y.get("k") == "call" and y.get("q") == "std::move" and y.get("a") and g.canon(strip(y["a"][0]), fr) == path:
                            return True
    return False


def owners(ctx):
    """Everybody but runCommand who takes a client's command from somewhere."""
    p = ctx.p
    rule = "who takes a command runs, answers or returns it"
    for f in sorted(p.fns.values(), key=lambda f: (f["file"], f["l"])):
        if not f["file"].startswith("Bedrock") or f["q"] == SRV + "runCommand" or not f.get("body"):
            continue
        if not any(y.get("k") == "call" and y.get("q") in SOURCES for y in fn_exprs(f)) or f.get("lambda"):
            continue
        g = ctx.graph(f, lambda h, e, fr: False)
        vars_ = {}
        for n in g.nodes:
            if n.k == "decl" and isinstance(n.e, dict) and re.match(r"(std::)?unique_ptr<Bedrock\w*Command\b[^&]*$", n.e.get("t", "")):
                vars_[g.var_path(n.e, n.fr)] = n
        for path in vars_:
            def source(e):
                return isinstance(e, dict) and any(y.get("k") == "call" and y.get("q") in SOURCES for y in walk(e))

            def events(n, t, facts, x):
                e = n.e
                if n.k == "decl" and isinstance(e, dict) and g.var_path(e, n.fr) == path:
                    return put(t, "own", "held" if source(e.get("init")) else None)
                if n.k == "dtor" and isinstance(e, dict) and g.var_path(e, n.fr) == path:
                    if has(t, "own") == "held" and has(t, "unw") in (None, "thread"):
                        ctx.bad(rule, f["q"], "dropped " + path.split("#")[0], n.where(), "%s drops a command without answering it" % f["q"], x.trace())
                    return put(t, "own", None)
                if n.k == "catch":
                    return put(t, "unw", None)
                if n.k == "return" and isinstance(e, dict) and isinstance(e.get("e"), dict):
                    if any(g.canon(y, n.fr) == path for y in walk(e["e"]) if y.get("k") == "var"):
                        return put(t, "own", None)
                if n.k in ("call", "icall", "assign") and isinstance(e, dict):
                    if e.get("op") == "=" and "obj" in e and g.canon(e["obj"], n.fr) == path or n.k == "assign" and n.x and n.x[0] == path:
                        if has(t, "own") == "held":
                            ctx.bad(rule, f["q"], "overwritten " + path.split("#")[0], n.where(), "%s overwrites a command without answering it" % f["q"], x.trace())
                        return put(t, "own", "held" if source(e) else None)
                    args = [a for a in e.get("a", []) if isinstance(a, dict)]
                    if n.q in (SRV + "_handleIfStatusOrControlCommand",) and any(g.canon(strip(a), n.fr) == path for a in args):
                        ctx.ok(rule, "%s at %s" % (n.q, n.where()))
                        c = g.canon(e, n.fr)
                        return [put(env_set(t, c, v), "now", v) for v in (0, 1)]
                    if n.q == SRV + "_reply" and any(g.canon(strip(a), n.fr) == path for a in args):
                        ctx.ok(rule, "_reply at %s" % n.where())
                        if has(t, "own") != "held":
                            ctx.bad("no command is answered twice", f["q"], "reply", n.where(), "%s answers a command it no longer has or already answered" % f["q"], x.trace())
                        return put(t, "own", None)
                    if any(g.canon(m, n.fr) == path for a in args for m in moved(a)) and n.q.split("::")[-1] not in ("move", "forward") and not n.q.startswith(UP):
                        ctx.ok(rule, "%s at %s" % (n.q, n.where()))
                        if n.q != SRV + "runCommand" and not is_keeper(n.q):
                            ctx.bad(rule, f["q"], n.q, n.where(), "%s gives a command to %s, which neither runs nor keeps it" % (f["q"], n.q), x.trace())
                        return put(t, "now", "ran" if n.q == SRV + "runCommand" else "gone")     # runCommand takes it first of all
                    if any(lambda_moves(p, a, path, n.fr, g) for a in args) or n.k != "assign" and lambda_moves(p, e, path, n.fr, g):
                        ctx.ok(rule, "thread at %s" % n.where())
                        return put(t, "now", "gone")
                return t

            def edges(n, lab, m, t):
                if lab == "exc":
                    return put(put(put(t, "own", None) if has(t, "now") == "ran" else t, "now", None), "unw", "thread" if n.k == "throw" or n.k in ("call", "icall") and n.q.startswith("std::thread::thread") else 1)
                if n.k == "branch" and lab in ("T", "F") and n.x[0] == ("t", path):
                    if (lab == "T") != n.x[1]:
                        return put(t, "own", None)
                    return t
                v = has(t, "now")
                if v is None:
                    return t
                t = put(t, "now", None)
                return put(t, "own", None) if v in ("gone", "ran", 1) else t
            Cases(ctx, g, "none", None, events, track="^$", edges=edges).run([g.entry], frozenset(), frozenset(), cap=200000)
    ctx.need(rule, 2)


def building(ctx):
    """BedrockServer::buildCommandFromRequest: who answered right away does not answer again."""
    q = SRV + "buildCommandFromRequest"
    g = ctx.graph(q, lambda h, e, fr: h["file"] == "BedrockServer.cpp" and (bool(h.get("lambda")) or h["q"].startswith(SRV)) and h["q"] != SRV + "getCommandFromPlugins")
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    rule = "a command is answered when it is queued or when it is done, not both"
    for forget, future in ((0, 0), (1, 0), (0, 1), (1, 1)):
        def leaf(e, fr, gg):
            el = equals_lit(e)
            if el and el[1] == "forget":
                return forget
            if e.get("k") == "bin" and e["op"] in ("<", ">", "<=", ">=") and any(y.get("q") == "STimeNow" for s in (e["x"], e["y"]) for y in walk(behind(s, fr, gg)[0])):
                later = any(y.get("q") == "STimeNow" for y in walk(behind(e["y"], fr, gg)[0]))
                return int(bool(future) == (e["op"] in (">", ">=")) if later else bool(future) == (e["op"] in ("<", "<=")))
            return None

        def events(n, t, facts, x):
            if n.k in ("call", "icall") and n.q.endswith("Socket::send"):
                return put(t, "sent", min(2, (has(t, "sent") or 0) + 1))
            if n.k in ("assign", "call") and isinstance(n.e, dict):
                e = n.e
                tgt, val = (e["x"], e["y"]) if e.get("k") == "bin" and e["op"] == "=" else (e["obj"], e["a"][0]) if e.get("op") == "=" and "obj" in e and e.get("a") else (None, None)
                tgt = strip(tgt) if tgt is not None else None
                if isinstance(tgt, dict) and tgt.get("k") == "mem" and tgt.get("q") == CMD + "socket":
                    vs = possible(val, n.fr, g, t, leaf)
                    return put(t, "sock", {(0,): "none", (None,): "some"}.get(tuple(vs), "?"))
                if isinstance(tgt, dict) and tgt.get("k") == "mem" and tgt.get("q", "").endswith("::initiatingClientID"):
                    vs = possible(val, n.fr, g, t, leaf)
                    return put(t, "client", {(-1,): "none", (None,): "some"}.get(tuple(vs), "?"))
            return t
        for k, n, t, facts in Cases(ctx, g, "none", leaf, events, track="^$").run([g.entry], frozenset(), frozenset()):
            if k == "throw":
                continue
            if k != "exit":
                continue
            inst = "forget %d, in the future %d" % (forget, future)
            ctx.ok(rule, inst)
            early = bool(forget or future)
            if (has(t, "sent") or 0) != int(early):
                ctx.bad(rule, q, "sent", where, "a request (%s) gets %d early answers" % (inst, has(t, "sent") or 0))
            if has(t, "sock") is None:       # no command
                if not early:
                    ctx.bad(rule, q, "nothing", where, "a request (%s) can be dropped without an answer" % inst)
                continue
            if has(t, "sock") != ("none" if early else "some"):
                ctx.bad(rule, q, "socket", where, "the command of a request (%s) has %s to answer on" % (inst, {"none": "no socket", "some": "a socket"}.get(has(t, "sock"), "an unknown socket")))
            if forget and has(t, "client") == "some":
                ctx.bad(rule, q, "client", where, "a command nobody waits for looks like one somebody waits for")
    ctx.need(rule, 1)


def sources(ctx):
    """`_source` names the other host whenever the request comes from one, and nobody changes it later."""
    q = SRV + "buildCommandFromRequest"
    p = ctx.p
    g = ctx.graph(q, lambda h, e, fr: h["file"] == "BedrockServer.cpp" and (bool(h.get("lambda")) or h["q"].startswith(SRV)) and h["q"] != SRV + "getCommandFromPlugins")
    where = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
    rule = "a request from another host carries that host's address"
    trust = next((a["n"] + "#0" for a in g.root_fn["p"] if a["t"] == "bool"), None)
    ctx.require(trust, "buildCommandFromRequest has no flag for trusted connections")
    for trusted, local in ((0, 0), (0, 1), (1, 0), (1, 1)):
        def leaf(e, fr, gg):
            if e.get("k") == "var" and gg.canon(e, fr) == trust:
                return trusted
            if e.get("k") == "call" and e.get("op") in ("==", "!=") or e.get("k") == "call" and e.get("q") in ("SIEquals",):
                a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
                for x, y in ((a[0], a[1]), (a[1], a[0])) if len(a) == 2 else ():
                    if any(z.get("k") == "str" and z.get("v") == "127.0.0.1" for z in walk(y)):
                        return int(bool(local) == (e.get("op") != "!="))
            return None

        def events(n, t, facts, x):
            if n.k in ("call", "icall", "assign") and isinstance(n.e, dict):
                e = n.e
                if e.get("op") == "=" and "obj" in e and e.get("a"):
                    h = hdr(e["obj"], n.fr, g)
                    if h and h[1] == "_source":
                        v = [y for y in walk(behind(e["a"][0], n.fr, g)[0])] + [y for y in walk(e["a"][0])]
                        good = any(y.get("q") in ("inet_ntoa", "inet_ntop") or "sockaddr" in y.get("t", "") or y.get("q", "").endswith("Socket::addr") for y in v)
                        return put(t, "src", "ip" if good else "other")
                if n.q == "SData::erase" and e.get("a") and const_of(strip_str(e["a"][0])) == 'c:"_source"':
                    return put(t, "src", "erased")
                if n.q == SRV + "getCommandFromPlugins":
                    inst = "%s, %s" % ("trusted connection" if trusted else "untrusted connection", "127.0.0.1" if local else "another host")
                    ctx.ok(rule, inst)
                    if not trusted and not local and has(t, "src") != "ip":
                        ctx.bad(rule, q, "missing", n.where(), "a command from another host is built without that host as its _source", x.trace())
                    if (trusted or local) and has(t, "src") == "erased":
                        ctx.bad(rule, q, "erased", n.where(), "the _source a peer recorded is erased", x.trace())
            return t
        Cases(ctx, g, "none", leaf, events, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" else t).run([g.entry], frozenset(), frozenset())
    ctx.need(rule, 4)
    # whose connections are trusted
    rule = "only the private command port is trusted"
    for f in p.fns.values():
        if not f.get("body"):
            continue
        for e in fn_exprs(f):
            if e.get("k") != "call":
                continue
            if e.get("q") == q:
                a = e["a"][2] if len(e.get("a", ())) > 2 else None
                gg = ctx.graph(p.outer(f) if f.get("lambda") else f, lambda h, e2, fr: bool(h.get("lambda")) and h["file"] == f["file"])
                for n in gg.nodes:
                    if n.k in ("call", "icall") and n.q == q and n.e["l"] == e["l"]:
                        c = gg.canon(strip(n.e["a"][2]), n.fr)
                        ctx.ok(rule, "%s passes %s" % (f["q"], c))
                        ps = {gp["n"] + "#0" for gp in gg.root_fn["p"] if gp["t"] == "bool"}
                        if c in ("c:false", "c:0"):
                            continue
                        if c not in ps or f["q"] != SRV + "handleSocket":
                            ctx.bad(rule, f["q"], "flag", n.where(), "%s decides by itself which connections are trusted" % f["q"])
                        elif [gp["n"] for gp in gg.root_fn["p"] if gp["t"] == "bool"].index(c[:-2]) != 2 and not c.lower().startswith("fromprivate"):
                            ctx.bad(rule, f["q"], "flag", n.where(), "connections are trusted by %s" % c)
            # nobody else changes it
            h = header_of(e["obj"]) if e.get("op") == "=" and "obj" in e else None
            if (h and h[1] == "_source" or e.get("q") == "SData::erase" and e.get("a") and const_of(strip_str(e["a"][0])) == 'c:"_source"'):
                ctx.ok("_source is set in one place", f["q"])
                if f["q"] != q and p.outer(f)["q"] != q:
                    ctx.bad("_source is set in one place", f["q"], "write", "%s:%d" % (f["file"], e["l"]), "%s changes a request's _source" % f["q"])
    ctx.need(rule, 1)
    started(ctx)


def started(ctx):
    """_acceptSockets tells each socket thread which port it comes from."""
    p = ctx.p
    rule = "a socket's thread knows which port it came from"
    hs = p.byq.get(SRV + "handleSocket", [])
    ctx.require(hs, "handleSocket not found")
    h = p.fns[hs[0]] if not isinstance(hs[0], dict) else hs[0]
    flags = [a["n"] for a in h["p"]]
    want = {}
    for i, nm in enumerate(flags):
        for port, key in (("_controlPort", "control"), ("_commandPortPublic", "public"), ("_commandPortPrivate", "private")):
            if key in nm.lower():
                want[i] = SRV + port
    ctx.require(len(want) == 3, "handleSocket's port flags not found")
    g = ctx.graph(SRV + "_acceptSockets", lambda h2, e, fr: bool(h2.get("lambda")) and h2["file"] == "BedrockServer.cpp")
    found = 0
    calls = [(n.e, n.fr, n.where()) for n in g.nodes if n.k in ("call", "icall") and isinstance(n.e, dict)]
    for f in p.fns.values():        # the body of a thread
        if f.get("lambda") and f.get("body") and p.outer(f)["q"] == SRV + "_acceptSockets":
            calls += [(e, g.root, "%s:%d" % (f["file"], e["l"])) for e in fn_exprs(f) if e.get("k") == "call" and e.get("q") == SRV + "handleSocket"]
    for e, fr, at in calls:
        a = e.get("a", [])
        args = None
        if e.get("q") == SRV + "handleSocket":
            args = a
        elif e.get("q", "").startswith("std::thread::thread") and a and any(y.get("k") == "fref" and y.get("q") == SRV + "handleSocket" for y in walk(a[0])):
            args = a[2:]
        if args is None:
            continue
        found += 1
        for i, port in want.items():
            o, f = behind(args[i], fr, g)
            ms = [y.get("q") for y in walk(o) if y.get("k") == "mem"] if isinstance(o, dict) else []
            ctx.ok(rule, "%s at %s" % (flags[i], at))
            eq = isinstance(o, dict) and (o.get("op") == "==") and (o.get("k") in ("bin", "call"))
            if port not in ms or not eq or any(m in want.values() for m in ms if m != port):
                ctx.bad(rule, SRV + "_acceptSockets", flags[i], at, "handleSocket's %s is not whether the connection came from %s" % (flags[i], port.split("::")[1]))
    if not found:
        ctx.undecided.append("_acceptSockets: no call of handleSocket found")
