"""Properties of the SQLite handle (sqlitecluster/SQLite.cpp)."""
from . import prop
from ..lib import *

COMMIT_LOCK = "SQLite::SharedData::commitLock"
WRITE_LOCK = "SQLite::SharedData::writeLock"
FLAG = "SQLite::_mutexLocked"
INSIDE = "SQLite::_insideTransaction"
ATOM_FLAG = ("t", "this._mutexLocked")
ATOM_INSIDE = ("t", "this._insideTransaction")


def same_class(f, e, fr):
    """Inline everything defined in the handle's own source files (helpers, shared data, lambdas, local guard classes)."""
    return f.get("lambda") or f["file"] in ("sqlitecluster/SQLite.cpp", "sqlitecluster/SQLite.h")


def try_lock_branch(n):
    e = strip(n.e) if n.e else None
    return isinstance(e, dict) and e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("try_lock", "try_lock_for", "try_lock_until")


class CommitLockRule(Simple):
    """Automaton: number of times this thread holds the commit lock through this handle (RAII guards counted apart)."""

    def __init__(self, ctx, name, start):
        super().__init__()
        self.ctx, self.name, self.start = ctx, name, start
        self.events = 0
        self.exits = []

    def init(self):
        return (self.start, ())

    def track(self, s):
        return s.endswith("._mutexLocked") or s.endswith("._insideTransaction") or "_uncommittedHash.size()" in s

    def node(self, n, a, facts, x):
        held, raii = a
        for op, fld, path, sh, rp in lock_ops(n, x.g):
            if op in ("raii-acquire", "raii-adopt") and fld == COMMIT_LOCK:
                self.events += 1
                raii = raii + ((rp, True),)
                if op == "raii-adopt":
                    held -= 1
            elif op in ("raii-defer", "raii-try") and fld == COMMIT_LOCK:
                raii = raii + ((rp, False),)
            elif op == "raii-lock" and any(r[0] == rp for r in raii):
                raii = tuple((r[0], True) if r[0] == rp else r for r in raii)
            elif op == "raii-unlock" and any(r[0] == rp for r in raii):
                raii = tuple((r[0], False) if r[0] == rp else r for r in raii)
            elif op == "raii-release":
                raii = tuple(r for r in raii if r[0] != rp)
            elif fld == COMMIT_LOCK and op == "acquire":
                self.events += 1
                held += 1
            elif fld == COMMIT_LOCK and op == "release":
                self.events += 1
                held -= 1
                if held < 0:
                    self.ctx.bad("commit-lock-pairing", self.name, "release-not-held", n.where(), "%s releases the commit lock on a path where this handle does not hold it" % self.name, x.trace())
                    return STOP
        if n.k == "call" and n.q.split("::")[-1] == "release" and any(r[0] == x.g.canon(n.e.get("obj"), n.fr) for r in raii if "obj" in n.e):
            rp = x.g.canon(n.e["obj"], n.fr)
            if any(r == (rp, True) for r in raii):
                held += 1
            raii = tuple(r for r in raii if r[0] != rp)
        if held > 2:
            return STOP
        if n.k in ("exit", "excexit"):
            self.exits.append((n.k, held + sum(1 for r in raii if r[1]), known(facts, ATOM_FLAG), known(facts, ATOM_INSIDE), x.trace(), facts))
        return (held, raii)

    def edge(self, n, lab, m, a, facts, x):
        if n.k == "branch" and try_lock_branch(n):
            e = strip(n.e)
            if mutex_field_in(e["obj"], n.fr, x.g) == COMMIT_LOCK:
                self.events += 1
                atom, pol = n.x
                if (lab == "T") == pol or lab == "T":
                    if lab == "T":
                        return (a[0] + 1, a[1])
        return a


def start_facts(flag, inside):
    f = [(ATOM_FLAG, flag), (ATOM_INSIDE, inside)]
    if not flag:
        # without the lock nothing is prepared: there is no hash yet
        f.append((("eq", "this._uncommittedHash.size()", "c:0"), True))
    return frozenset(f)


def uses(p, f, fields):
    return any(e.get("k") == "mem" and e["q"] in fields for e in fn_exprs(f))


@prop("C01")
def commit_lock(ctx):
    """Commit lock <-> handle state typestate over every method of the handle."""
    p = ctx.p
    p.throws(next(iter(p.fns)))
    ctx.require(COMMIT_LOCK.split("::")[-1] in [f["n"] for f in p.records.get("SQLite::SharedData", {}).get("fields", [])], "field SQLite::SharedData::commitLock not found")
    fields = {COMMIT_LOCK, FLAG}
    direct = p.reaches(lambda f: uses(p, f, fields))
    public = [f for f in p.methods_of("SQLite") if f["id"] in direct and (f.get("acc") == 0 or f.get("isdtor")) and not f.get("isctor")]
    ctx.require(len(public) >= 5, "only %d public handle methods touch the commit lock" % len(public))
    EXEMPT = {"SQLite::exclusiveLockDB": 1, "SQLite::exclusiveUnlockDB": -1}
    for f in sorted(public, key=lambda f: f["l"]):
        name = f["q"]
        g = ctx.graph(f, same_class)
        delta = EXEMPT.get(name, 0)
        # consistent start states: idle, inside a transaction, inside and holding the lock
        starts = [(0, False, False), (0, False, True), (1, True, True)]
        if delta == -1:
            starts = [(1, False, False), (1, False, True)]
        if delta == 1:
            starts = [(0, False, False), (0, False, True)]
        for held, flag, inside in starts:
            r = CommitLockRule(ctx, name, held)
            x = ctx.explore(g, r, facts=start_facts(flag, inside))
            for kind, h, fl, ins, tr, facts in r.exits:
                ctx.ok("exit: lock held iff handle says so", "%s %s held=%d" % (name, kind, h))
                what = None
                if delta:
                    if kind == "exit" and h != held + delta:
                        what = ("delta", "leaves with the commit lock held %d times (expected %d)" % (h, held + delta))
                    if kind == "excexit":
                        continue
                elif fl is None:
                    what = ("flag-unknown", "leaves the lock flag undetermined")
                elif (h > 0) != fl:
                    what = ("held=%d flag=%s" % (h, fl), "leaves with the commit lock %s while the handle records it as %s" % ("held" if h else "free", "held" if fl else "free"))
                elif h > 1:
                    what = ("twice", "leaves with the commit lock held %d times" % h)
                elif h == 1 and ins is False:
                    what = ("held-outside", "leaves the commit lock held although no transaction is open, so that no later rollback releases it")
                elif h == 1 and f.get("isdtor"):
                    what = ("dtor", "destroys the handle while it still holds the commit lock")
                elif h == 1 and name == "SQLite::rollback" and kind == "exit":
                    what = ("rollback", "returns with the commit lock still held")
                if what:
                    ctx.bad("commit-lock-typestate", name, what[0] + " start=%s/%s" % (flag, inside), "%s:%d" % (f["file"], f["l"]), "%s %s%s" % (name, what[1], " when an exception leaves it" if kind == "excexit" else ""), tr)
    # result contracts
    contract(ctx, "SQLite::prepare", [(0, False, True), (1, True, True)], lambda v, h: (v == "true" and h != 1) and "returns success without holding the commit lock", "prepare success holds the lock")
    contract(ctx, "SQLite::beginTransaction", [(0, False, False)], None, "begin exclusive")
    contract(ctx, "SQLite::commit", [(1, True, True)], None, "commit success releases")
    # who may touch the lock: only the handle and its shared data
    for f in p.fns.values():
        own = p.outer(f)
        if uses(p, f, {COMMIT_LOCK, FLAG}):
            ctx.ok("lock touched only by the handle's own class", own["q"])
            if own.get("c") not in ("SQLite", "SQLite::SharedData"):
                ctx.bad("commit-lock-owner", own["q"], "access", "%s:%d" % (f["file"], f["l"]), "%s manipulates the commit lock outside the handle class" % own["q"])
    ctx.need("exit: lock held iff handle says so", 20)


class ResultRule(CommitLockRule):
    """Adds the returned constant / SQLITE_OK fact to the state at exit."""

    def track(self, s):
        return super().track(s) or s.startswith("ret0") or "\"COMMIT\"" in s or "result#0" in s or "TRANSACTION_TYPE" in s or s.startswith("type#0")


def contract(ctx, name, starts, pred, rule):
    p = ctx.p
    f = p.fn(name)
    g = ctx.graph(f, same_class)
    for held, flag, inside in starts:
        r = ResultRule(ctx, name, held)
        ctx.explore(g, r, facts=start_facts(flag, inside))
        for kind, h, fl, ins, tr, facts in r.exits:
            if kind != "exit":
                continue
            ctx.ok(rule, "%s held=%d" % (name, h))
            rv = None
            for k, v in facts:
                if k == ("t", "ret0"):
                    rv = "true" if v else "false"
            if name == "SQLite::prepare":
                if rv is None:
                    rv = "?"
                msg = pred(rv, h)
                if msg:
                    ctx.bad("commit-lock-contract", name, "success-unlocked", "%s:%d" % (f["file"], f["l"]), "%s %s" % (name, msg), tr)
                if rv == "false" and h > 0:
                    ctx.bad("commit-lock-contract", name, "failure-locked", "%s:%d" % (f["file"], f["l"]), "%s fails but keeps the commit lock" % name, tr)
            elif name == "SQLite::commit":
                okc = [v for k, v in facts if k[0] == "eq" and "\"COMMIT\"" in k[1] and k[2] in ("c:0", "c:SQLITE_OK")]
                if okc and okc[0] is True and h != 0:
                    ctx.bad("commit-lock-contract", name, "committed-locked", "%s:%d" % (f["file"], f["l"]), "commit succeeds but the commit lock stays held", tr)
                if okc and okc[0] is False and h != 1:
                    ctx.bad("commit-lock-contract", name, "conflict-unlocked", "%s:%d" % (f["file"], f["l"]), "a failed commit releases the commit lock before the rollback", tr)
            elif name == "SQLite::beginTransaction":
                ex = [v for k, v in facts if k[0] == "eq" and k[1] == "type#0" and k[2].endswith("EXCLUSIVE")]
                if ex and ex[0] is True and ins and h != 1:
                    ctx.bad("commit-lock-contract", name, "exclusive-unlocked", "%s:%d" % (f["file"], f["l"]), "an exclusive transaction begins without the commit lock", tr)
                if ex and ex[0] is False and h != 0:
                    ctx.bad("commit-lock-contract", name, "shared-locked", "%s:%d" % (f["file"], f["l"]), "a shared transaction begins holding the commit lock", tr)


def in_handle(f, e, fr):
    return same_class(f, e, fr)


class StaleRule(Simple):
    """C02: values of the commit count / last hash read without the commit lock must not reach journal or hash."""


@prop("C02")
def journal_chain(ctx):
    p = ctx.p
    f = p.fn("SQLite::prepare")
    g = ctx.graph(f, same_class)
    where = "%s:%d" % (f["file"], f["l"])
    COUNT, HASH, UQ, UH = "SQLite::SharedData::commitCount", "SQLite::SharedData::lastCommittedHash", "SQLite::_uncommittedQuery", "SQLite::_uncommittedHash"
    srcre = re.compile(r"_sharedData\.(commitCount|lastCommittedHash)")
    found = {"hash": 0, "ship": 0, "insert": 0, "true": 0}

    # --- ids and contents at the three sinks
    def one_more(e, fr):
        l = linear(e, fr, g)
        return l == ({COUNT: 1}, 1)
    ship = insert_params = None
    for n in g.nodes:
        if n.k in ("call", "icall") and n.q == "SQLite::SharedData::prepareTransactionInfo":
            a = call_args(n)
            ship = (n, a)
            found["ship"] += 1
            ctx.ok("journal row number is the commit count plus one", "%s prepareTransactionInfo" % n.where())
            if not one_more(a[0], n.fr):
                ctx.bad("journal-id", "SQLite::prepare", "shipped-id", n.where(), "the transaction kept for replication is not numbered commit count + 1 (%s)" % g.canon(a[0], n.fr))
            if origin_field(a[1], n.fr, g) != UQ:
                ctx.bad("journal-query", "SQLite::prepare", "shipped-query", n.where(), "the transaction kept for replication does not carry the prepared query")
            if origin_field(a[2], n.fr, g) != UH:
                ctx.bad("journal-query", "SQLite::prepare", "shipped-hash", n.where(), "the transaction kept for replication does not carry the prepared hash")
        if n.k == "call" and n.q == "SQuery":
            s = squery_sql(g, n) or ""
            if s.upper().startswith("INSERT INTO "):
                found["insert"] += 1
                a = call_args(n)
                pairs = {}
                for v, fr in (all_values(a[2], n.fr, g) if len(a) > 2 else []):
                    for x in walk(v):
                        if x.get("k") in ("ctor", "init") and len(x.get("a", ())) == 2:
                            key = const_of(x["a"][0])
                            if key and key.startswith('c:":'):
                                pairs[key[3:-1]] = (x["a"][1], fr)
                if len(pairs) < 3:
                    # a statement built as text
                    ctx.notes.append("journal row parameters not bound by name")
                ctx.ok("journal row binds id, query and hash", sorted(pairs))
                idv, qv, hv = (pairs.get(k) for k in (":commitID", ":query", ":hash"))

                def arg0(v):
                    e = strip(v[0])
                    e, fr2 = origin(e, v[1], g)
                    return (e["a"][0], fr2) if isinstance(e, dict) and e.get("k") in ("call", "ctor") and e.get("a") else (e, fr2)
                if idv and not one_more(*arg0(idv)):
                    ctx.bad("journal-id", "SQLite::prepare", "row-id", n.where(), "the journal row is not numbered commit count + 1 (%s)" % g.canon(*arg0(idv)))
                if qv and origin_field(*arg0(qv), g) != UQ:
                    ctx.bad("journal-query", "SQLite::prepare", "row-query", n.where(), "the journal row does not store the prepared query")
                if hv and origin_field(*arg0(hv), g) != UH:
                    ctx.bad("journal-query", "SQLite::prepare", "row-hash", n.where(), "the journal row does not store the prepared hash")
                ctx.require(pairs, "journal INSERT parameters not recognised")
        for fld, path, const, canon in written(n, g):
            if n.k == "assign" and path.startswith("transactionID#"):
                pass
    for n in g.nodes:
        if n.k == "assign" and n.x and n.x[0].startswith("transactionID#") and n.e.get("k") == "bin":
            ctx.ok("journal row number is the commit count plus one", "%s reported id" % n.where())
            if not one_more(n.e["y"], n.fr):
                ctx.bad("journal-id", "SQLite::prepare", "reported-id", n.where(), "the transaction id reported to the caller is not commit count + 1")

    # --- path rule: freshness, order, and success implies the row was inserted
    def is_src(canon):
        return canon and srcre.search(canon) is not None

    def events(n, t, facts, x):
        locked = known(facts, ATOM_FLAG) is True
        if n.k in ("decl", "assign") and n.x and n.x[2]:
            path, const, canon = n.x
            # direct read of shared state, or derived from a stale variable
            stale = (is_src(canon) and not locked) or any(("stale", v) in t for v in TOK.findall(canon))
            if re.match(r"\w+#\d+$", path):
                t = t - {("stale", path)}
                if stale:
                    t = t | {("stale", path)}
            elif path.endswith("._uncommittedHash") or path.startswith("transactionID"):
                if stale:
                    ctx.bad("journal-stale", "SQLite::prepare", path.split(".")[-1].split("#")[0], n.where(), "a commit count or hash read before the commit lock was taken flows into %s" % path, x.trace())
        if n.k == "return" and n.x and n.x[2] and is_src(n.x[2]) and not locked and n.fr.depth > 0:
            t = t | {("stale", n.x[0])}
        if n.k in ("call", "icall"):
            e = n.e
            txt = x.g.canon(e, n.fr) if n.k == "call" else ",".join(x.g.canon(a, n.fr) for a in e.get("a", ()))
            for fld, path, const, canon in written(n, x.g):
                if fld == UQ:
                    t = t | {("packed",)}
                if fld == UH and e.get("op") == "=" and canon not in ('c:""',):
                    found["hash"] += 1
                    ctx.ok("hash = SHA1(last committed hash + query), under the lock", n.where())
                    val, vf = e["a"][0], n.fr
                    hs = []
                    for v, vfr in all_values(val, vf, x.g):
                        hs += [(y, vfr) for y in walk(v) if y.get("k") == "call" and y.get("q") == "SHashSHA1"]
                    if not hs:
                        ctx.bad("hash-chain", "SQLite::prepare", "not-sha1", n.where(), "the transaction hash is not a SHA1")
                    for y, vfr in hs:
                        arg, afr = origin(y["a"][0], vfr, x.g)
                        parts = []

                        def flat(z, zf):
                            z0, zf0 = origin(z, zf, x.g)
                            if isinstance(z0, dict) and z0.get("k") == "call" and z0.get("op") == "+":
                                for q in ([z0["obj"]] if "obj" in z0 else []) + z0["a"]:
                                    flat(q, zf0)
                            else:
                                parts.append(mutex_field_in(z0, zf0, x.g))
                        flat(arg, afr)
                        if parts != [HASH, UQ]:
                            ctx.bad("hash-chain", "SQLite::prepare", "inputs", n.where(), "the transaction hash does not cover exactly the last committed hash followed by the query (%s)" % parts)
                    if ("packed",) in t:
                        ctx.bad("hash-chain", "SQLite::prepare", "after-compress", n.where(), "the hash is computed after the query was rewritten for storage", x.trace())
                    if not locked:
                        ctx.bad("journal-stale", "SQLite::prepare", "hash-unlocked", n.where(), "the hash is computed without the commit lock", x.trace())
                    if any(("stale", v) in t for v in TOK.findall(canon or "")) or (is_src(canon) and not locked):
                        ctx.bad("journal-stale", "SQLite::prepare", "hash", n.where(), "a hash read before the commit lock was taken flows into the new hash", x.trace())
                    t = t | {("hashed",)}
            if n.q == "SQLite::SharedData::prepareTransactionInfo":
                if not locked or any(("stale", v) in t for v in TOK.findall(txt)):
                    ctx.bad("journal-stale", "SQLite::prepare", "ship", n.where(), "the transaction is published for replication from a commit count read without the commit lock", x.trace())
                if ("hashed",) not in t:
                    ctx.bad("hash-chain", "SQLite::prepare", "ship-before-hash", n.where(), "the transaction is kept for replication before its hash is computed", x.trace())
                if ("inserted",) not in t:
                    t = t | {("shipped",)}
                else:
                    t = t | {("shipped",)}
            if n.k == "call" and n.q == "SQuery" and (squery_sql(x.g, n) or "").upper().startswith("INSERT INTO "):
                if not locked:
                    ctx.bad("journal-stale", "SQLite::prepare", "insert-unlocked", n.where(), "the journal row is written without the commit lock", x.trace())
                if any(("stale", v) in t for v in TOK.findall(txt)):
                    ctx.bad("journal-stale", "SQLite::prepare", "insert", n.where(), "a commit count read before the commit lock was taken flows into the journal row", x.trace())
                if ("hashed",) not in t:
                    ctx.bad("hash-chain", "SQLite::prepare", "row-before-hash", n.where(), "the journal row is written before the hash is computed", x.trace())
                t = t | {("inserted",)}
        if n.k == "exit" and known(facts, ("t", "ret0")) is True:
            found["true"] += 1
            ctx.ok("prepare succeeds only with its journal row written", "path to exit")
            if ("inserted",) not in t or ("hashed",) not in t or ("shipped",) not in t:
                ctx.bad("prepare-complete", "SQLite::prepare", "missing", where, "prepare reports success without hash, journal row and replication record all in place", x.trace())
            okc = [v for k, v in facts if k[0] == "eq" and k[1] in rows]
            if not any(v is True for v in okc):
                ctx.bad("prepare-complete", "SQLite::prepare", "row-unchecked", where, "prepare reports success although writing the journal row may have failed", x.trace())
        return t
    rows = {g.canon(n.e, n.fr) for n in g.nodes if n.k == "call" and n.q == "SQuery" and (squery_sql(g, n) or "").upper().startswith("INSERT INTO ")}
    r = Flow(events, "|".join([r"_mutexLocked$", r"^ret0"] + ["^%s" % re.escape(c) for c in sorted(rows)]))
    for flag in (False, True):
        ctx.explore(g, r, facts=start_facts(flag, True))
    for k, v in found.items():
        ctx.require(v > 0, "prepare: no '%s' site recognised" % k)

    # --- commit(): the shared count advances exactly once per successful COMMIT, before the lock is released
    fc = p.fn("SQLite::commit")
    gc = ctx.graph(fc, lambda f, e, fr: same_class(f, e, fr) and f["q"] != "SQLite::SharedData::incrementCommit")
    sites = {"commit": 0, "inc": 0}

    def okcommit(facts):
        for k, v in facts:
            if k[0] == "eq" and "\"COMMIT\"" in k[1] and k[2] == "c:0":
                return v
        return None

    def cev(n, t, facts, x):
        if n.k == "call" and n.q == "SQuery" and (squery_sql(x.g, n) or "").upper().strip(" ;") == "COMMIT":
            sites["commit"] += 1
            t = t | {"committed"}
        if n.k == "call" and n.q == "SQLite::SharedData::incrementCommit":
            sites["inc"] += 1
            ctx.ok("commit count advances once per successful COMMIT, under the lock", n.where())
            if okcommit(facts) is not True:
                ctx.bad("count-advance", "SQLite::commit", "unconditional", n.where(), "the commit count advances although COMMIT is not known to have succeeded", x.trace())
            if "inc" in t:
                ctx.bad("count-advance", "SQLite::commit", "twice", n.where(), "the commit count advances twice for one COMMIT", x.trace())
            if "unlocked" in t:
                ctx.bad("count-advance", "SQLite::commit", "after-unlock", n.where(), "the commit count and hash advance after the commit lock was released", x.trace())
            if "cleared" in t:
                ctx.bad("count-advance", "SQLite::commit", "after-clear", n.where(), "the last committed hash is taken after the transaction's hash was cleared", x.trace())
            a = call_args(n)
            if not a or origin_field(a[0], n.fr, x.g) != UH:
                ctx.bad("count-advance", "SQLite::commit", "hash", n.where(), "the last committed hash does not become the prepared hash", x.trace())
            t = t | {"inc"}
        for op, fld, path, sh, rp in lock_ops(n, x.g):
            if fld == COMMIT_LOCK and op == "release":
                t = t | {"unlocked"}
        for fld, path, const, canon in written(n, x.g):
            if fld == UH:
                t = t | {"cleared"}
        if n.k == "exit":
            if okcommit(facts) is True and "inc" not in t:
                ctx.bad("count-advance", "SQLite::commit", "missing", "%s:%d" % (fc["file"], fc["l"]), "COMMIT succeeds but the commit count and hash do not advance", x.trace())
            if okcommit(facts) is True and "cleared" not in t:
                ctx.bad("count-advance", "SQLite::commit", "not-cleared", "%s:%d" % (fc["file"], fc["l"]), "a committed transaction's hash stays on the handle", x.trace())
        return t
    ctx.explore(gc, Flow(cev, r"\"COMMIT\""), facts=start_facts(True, True))
    ctx.require(sites["commit"] and sites["inc"], "commit: COMMIT / incrementCommit sites not recognised")

    # --- the shared record itself
    inc = p.fn("SQLite::SharedData::incrementCommit")
    gi = ctx.graph(inc, lambda f, e, fr: f.get("c") == "SQLite::SharedData")

    def iev(n, t, facts, x):
        if n.k == "log":
            return t
        h = HELD(n, frozenset(y for y in t if isinstance(y, tuple)), x.g)
        t = frozenset(y for y in t if not isinstance(y, tuple)) | h
        for fld, path, const, canon in written(n, x.g):
            if fld == COUNT:
                if "count" in t:
                    ctx.bad("count-record", inc["q"], "count-twice", n.where(), "one commit advances the commit count more than once", x.trace())
                if n.e.get("op") == "++" or (n.e.get("op") == "+=" and const_of(n.e.get("a", n.e.get("y") and [n.e["y"]])[0]) == "c:1"):
                    pass
                else:
                    l = linear(n.e.get("y") or (n.e.get("a") or [None])[0], n.fr, x.g) if n.e.get("op") == "=" else None
                    if l != ({COUNT: 1}, 1):
                        ctx.bad("count-record", inc["q"], "count-step", n.where(), "a commit does not advance the commit count by one", x.trace())
                t = t | {"count"}
            if fld == HASH:
                v = n.e.get("y") or (n.e.get("a") or [None])[0]
                o, of = origin(v, n.fr, x.g)
                if not (isinstance(o, dict) and o.get("vk") == "param"):
                    ctx.bad("count-record", inc["q"], "hash-value", n.where(), "the last committed hash is not set to the committed transaction's hash", x.trace())
                t = t | {"hash"}
            if fld == "SQLite::SharedData::_committedTransactions":
                t = t | {"moved"}
                if "count" not in t:
                    ctx.bad("count-record", inc["q"], "moved-before-count", n.where(), "the transaction recorded as committed is chosen by the old commit count", x.trace())
                ex = [y for y in walk(n.e) if y.get("k") == "call" and y.get("q", "").endswith("::extract")]
                for y in ex:
                    if mutex_field_in(y["obj"], n.fr, x.g) != "SQLite::SharedData::_preparedTransactions" or linear(y["a"][0], n.fr, x.g) != ({COUNT: 1}, 0):
                        ctx.bad("count-record", inc["q"], "moved-which", n.where(), "the transaction recorded as committed is not the prepared one with the new commit count", x.trace())
            if fld in (COUNT, HASH, "SQLite::SharedData::_committedTransactions", "SQLite::SharedData::_preparedTransactions") and not holds(t, "SQLite::SharedData::_internalStateMutex"):
                ctx.bad("count-record", inc["q"], "unlocked", n.where(), "%s changes without the internal state mutex" % fld, x.trace())
        if n.k == "exit":
            ctx.ok("advancing records count, hash and transaction together", inc["q"])
            if not {"count", "hash", "moved"} <= t:
                ctx.bad("count-record", inc["q"], "missing-" + ",".join(sorted({"count", "hash", "moved"} - t)), "%s:%d" % (inc["file"], inc["l"]), "a commit does not update: %s" % sorted({"count", "hash", "moved"} - t), x.trace())
        return t
    ctx.explore(gi, Flow(iev))

    # --- who writes the count / hash
    for fn in p.fns.values():
        d = p.direct_mod(fn) & {COUNT, HASH}
        own = p.outer(fn)
        st = any(e.get("k") == "call" and e.get("q", "").endswith("::store") and mutex_field(e.get("obj")) in (COUNT, HASH) for e in fn_exprs(fn))
        if d or st:
            ctx.ok("only commit and start-up write the commit count / hash", own["q"])
            if own.get("c") not in ("SQLite", "SQLite::SharedData") or own["q"] in ("SQLite::rollback", "SQLite::prepare", "SQLite::beginTransaction"):
                ctx.bad("count-writer", own["q"], "write", "%s:%d" % (fn["file"], fn["l"]), "%s writes the shared commit count or hash" % own["q"])
    # callers of incrementCommit
    for fn in p.fns.values():
        for e in calls_in(fn, "SQLite::SharedData::incrementCommit"):
            own = p.outer(fn)
            ctx.ok("only commit advances the count", own["q"])
            if own.get("c") != "SQLite":
                ctx.bad("count-writer", own["q"], "increment", "%s:%d" % (fn["file"], e["l"]), "%s advances the commit count" % own["q"])
    # a newly prepared transaction replaces an abandoned one of the same number
    pt = p.fn("SQLite::SharedData::prepareTransactionInfo")
    writes = [e for e in fn_exprs(pt) if e.get("k") == "call" and "obj" in e and mutex_field(e["obj"]) == "SQLite::SharedData::_preparedTransactions"]
    ctx.require(writes, "prepareTransactionInfo does not touch _preparedTransactions")
    nm = {e["q"].split("::")[-1] for e in writes}
    ctx.ok("re-preparing the same number replaces the abandoned transaction", sorted(nm))
    if not (nm & {"insert_or_assign", "operator[]"}) and not ("erase" in nm and nm & {"insert", "emplace", "try_emplace"}):
        ctx.bad("prepared-replace", pt["q"], "keeps-stale", "%s:%d" % (pt["file"], pt["l"]), "a transaction prepared after a rollback does not replace the abandoned one of the same number")
    pop = p.fn("SQLite::SharedData::popCommittedTransactions")
    gp = ctx.graph(pop, lambda f, e, fr: f.get("c") == "SQLite::SharedData")

    def pev(n, t, facts, x):
        h = HELD(n, frozenset(y for y in t if isinstance(y, tuple)), x.g)
        t = frozenset(y for y in t if not isinstance(y, tuple)) | h
        CT = "SQLite::SharedData::_committedTransactions"
        if n.k in ("call", "decl"):
            mv = [y for y in walk(n.e if n.k == "call" else n.e.get("init")) if y.get("k") == "mem" and y["q"] == CT]
            if mv and not holds(t, "SQLite::SharedData::_internalStateMutex"):
                ctx.bad("pop-once", pop["q"], "unlocked", n.where(), "committed transactions are taken without the internal state mutex", x.trace())
            if n.k == "call" and any(mutex_field(n.e.get("obj")) == CT for _ in (1,)) and n.q.split("::")[-1] in ("clear", "swap"):
                if n.q.endswith("clear") and "taken" not in t:
                    ctx.bad("pop-once", pop["q"], "clear-first", n.where(), "committed transactions are discarded before they are returned", x.trace())
                t = t | {"emptied"}
            if mv and not n.q.endswith("clear"):
                t = t | {"taken"}
                if n.q.split("::")[-1] in ("swap",) or n.q == "std::exchange":
                    t = t | {"emptied"}
        if n.k == "exit":
            ctx.ok("committed transactions are handed out once", pop["q"])
            if "emptied" not in t or "taken" not in t:
                ctx.bad("pop-once", pop["q"], "not-emptied", "%s:%d" % (pop["file"], pop["l"]), "committed transactions are not handed out exactly once", x.trace())
        return t
    ctx.explore(gp, Flow(pev))


# ------------------------------------------------------------------------------------------------------------ C03
UQ, UH = "SQLite::_uncommittedQuery", "SQLite::_uncommittedHash"


def up_roots(p, fids, stop):
    """Functions reached by walking callers from fids, not past functions whose name is in stop; (stops met, unstopped roots)."""
    callers = p.callers()
    seen, todo, hit, roots = set(), list(fids), set(), set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = p.fns[i]
        if f["q"] in stop:
            hit.add(f["q"])
            continue
        cs = [c for c in callers.get(i, ()) if c in p.fns]
        if not cs or f.get("acc") == 0 and not f.get("lambda") and f.get("c"):
            roots.add(f["q"])
        if not (f.get("acc") == 0 and f.get("c")):
            todo += cs
    return hit, roots


def squery_arg(n, i):
    a = n.e.get("a", [])
    return a[i] if len(a) > i and a[i].get("k") != "defarg" else None


def is_pragma(s):
    return (s or "").upper().lstrip().startswith("PRAGMA")


@prop("C03")
def replicated_writes(ctx):
    p = ctx.p
    wi = p.fn("SQLite::_writeIdempotent")
    g = ctx.graph(wi, same_class)
    where = "%s:%d" % (wi["file"], wi["l"])
    fn = wi["q"]
    seen = {"exec": 0, "append": 0, "true": 0}
    keep_params = ["%s#0" % q["n"] for q in wi["p"] if q["t"] == "bool"]

    def events(n, t, facts, x):
        if n.k == "call" and n.q == "SQuery":
            s = squery_sql(x.g, n)
            if is_pragma(s) and "schema_version" in s:
                r = squery_arg(n, 2)
                if r is not None:
                    pth = x.g.canon(r, n.fr)
                    t = frozenset(y for y in t if y[:2] != ("src", pth)) | {("src", pth, "schema", "after" if ("ran",) in t else "before")}
            elif s is None or not is_pragma(s):
                # the user's statement
                seen["exec"] += 1
                ctx.ok("user SQL runs only inside a transaction", n.where())
                if known(facts, ATOM_INSIDE) is not True:
                    ctx.bad("write-outside", fn, "exec", n.where(), "a write executes although no transaction is known to be open", x.trace())
                ex = squery_arg(n, 7)
                ep = x.g.canon(ex, n.fr) if ex is not None and const_of(ex) != "c:null" else None
                if ep is None:
                    ctx.bad("write-expansion", fn, "not-captured", n.where(), "a write executes without capturing its parameter-expanded text for replication", x.trace())
                t = frozenset(y for y in t if y[0] not in ("exp", "appended")) | {("ran",), ("exp", ep)}
                q = squery_arg(n, 1)
        if n.k == "call" and n.q == "sqlite3_total_changes":
            t = t | {("chg-at", "after" if ("ran",) in t else "before")}
        if n.k in ("decl", "assign") and n.x and n.x[2]:
            path, const, canon = n.x
            new = None
            if "sqlite3_total_changes" in canon:
                new = ("val", path, "changes", "after" if ("ran",) in t else "before")
            else:
                for y in t:
                    if y[0] == "src" and re.search(re.escape(y[1]) + r"(?![\w#])", canon):
                        new = ("val", path, y[2], y[3])
                    if y[0] == "val" and canon == y[1]:
                        new = ("val", path, y[2], y[3])
            if re.match(r"\w+#\d+$|ret\d+$", path):
                t = frozenset(y for y in t if not (y[0] == "val" and y[1] == path))
            if new:
                t = t | {new}
        if n.k == "return" and n.x and n.x[2] and n.fr.depth > 0:
            for y in list(t):
                if y[0] == "src" and y[1] in n.x[2]:
                    t = t | {("val", n.x[0], y[2], y[3])}
                if y[0] == "val" and n.x[2] == y[1]:
                    t = t | {("val", n.x[0], y[2], y[3])}
            if "sqlite3_total_changes" in n.x[2]:
                t = t | {("val", n.x[0], "changes", "after" if ("ran",) in t else "before")}
        for fld, path, const, canon in written(n, x.g):
            if fld == UQ and n.k in ("call", "icall"):
                seen["append"] += 1
                nm = n.e.get("op") or n.q.split("::")[-1]
                exp = [y[1] for y in t if y[0] == "exp"]
                a = call_args(n)
                v = x.g.canon(a[-1], n.fr) if a else None
                ctx.ok("appends the executed text", n.where())
                if nm not in ("+=", "append"):
                    ctx.bad("write-append", fn, "not-append", n.where(), "the replicated query is replaced or edited instead of extended", x.trace())
                elif ("ran",) not in t:
                    ctx.bad("write-append", fn, "before-run", n.where(), "text is added to the replicated query before it was executed", x.trace())
                elif v not in exp:
                    ctx.bad("write-append", fn, "other-text", n.where(), "the text added to the replicated query (%s) is not the executed statement with its parameters expanded" % v, x.trace())
                if ("appended",) in t:
                    ctx.bad("write-append", fn, "twice", n.where(), "one write is added to the replicated query twice", x.trace())
                t = t | {("appended",)}
        if n.k == "exit":
            v = known(facts, ("t", "ret0"))
            if v is not False and ("ran",) in t:
                seen["true"] += 1
                ctx.ok("a successful write is kept unless nothing changed", "path to exit")
                failed = any(k[0] == "eq" and k[2] == "c:0" and (k[1].startswith("SQuery@") or re.match(r"resultCode#\d+", k[1])) and vv is False for k, vv in facts)
                if ("appended",) not in t:
                    vals = {y[1]: y[2:] for y in t if y[0] == "val"}

                    def unchanged(kind):
                        for k, vv in facts:
                            if k[0] in ("lt", "eq") and len(k) == 3:
                                a, b = vals.get(k[1]), vals.get(k[2])
                                if a and b and a[0] == b[0] == kind and {a[1], b[1]} == {"before", "after"}:
                                    if k[0] == "lt" and a[1] == "before" and vv is False:
                                        return True
                                    if k[0] == "eq" and vv is True:
                                        return True
                        return False
                    if not (keep_params and all(known(facts, ("t", kp)) is False for kp in keep_params)):
                        ctx.bad("write-kept", fn, "always-keep", where, "a write that must always be kept can succeed without being added to the replicated query", x.trace())
                    for kind, txt in (("changes", "changed rows"), ("schema", "changed the schema")):
                        if not unchanged(kind):
                            ctx.bad("write-kept", fn, kind, where, "a write that %s can succeed without being added to the replicated query" % txt, x.trace())
        return t
    track = r"_insideTransaction$|^ret0|^(%s)$|^\w+#\d+\|\w+#\d+$|^ret\d+\||\|ret\d+$" % "|".join(map(re.escape, keep_params or ["-"]))
    ctx.require(keep_params, "_writeIdempotent has no always-keep parameter")
    ctx.explore(g, Flow(events, track), facts=start_facts(False, True))
    ctx.explore(g, Flow(events, track), facts=start_facts(False, False))
    for k in ("exec", "append", "true"):
        ctx.require(seen[k], "_writeIdempotent: no '%s' site recognised" % k)

    # every public write funnels into it, with the right always-keep flag
    pub = [f for f in p.methods_of("SQLite") if f.get("acc") == 0 and re.match(r"SQLite::write", f["q"])]
    ctx.require(len(pub) >= 6, "public write methods not found")
    for f in pub:
        if f["q"] == "SQLite::writeLocalUnreplicated":
            continue
        gw = ctx.graph(f, lambda h, e, fr: same_class(h, e, fr) and h["q"] != fn)
        always = "Unmodified" in f["q"]
        params = {q["n"] + "#0" for q in f["p"]}

        def wev(n, t, facts, x):
            if n.k == "call" and n.q == fn:
                a = call_args(n)
                flag = const_of(a[3]) if len(a) > 3 else "c:false"
                ctx.ok("public writes reach the recording write with their own query", f["q"])
                if always and flag != "c:true":
                    ctx.bad("write-funnel", f["q"], "not-kept", n.where(), "%s does not keep a statement that changed nothing" % f["q"], x.trace())
                if x.g.canon(a[0], n.fr) not in params:
                    ctx.bad("write-funnel", f["q"], "other-query", n.where(), "%s executes something other than its query" % f["q"], x.trace())
                pm = [q["n"] + "#0" for q in f["p"] if "map<" in q["t"]]
                if pm and x.g.canon(a[1], n.fr) not in pm:
                    ctx.bad("write-funnel", f["q"], "params-dropped", n.where(), "%s does not pass its bound parameters on" % f["q"], x.trace())
                t = t | {"funnel"}
            if n.k == "exit" and "funnel" not in t and known(facts, ("t", "this._noopUpdateMode")) is not True:
                ctx.bad("write-funnel", f["q"], "skipped", "%s:%d" % (f["file"], f["l"]), "%s can report success without running the recorded write" % f["q"], x.trace())
            if n.k == "exit" and "funnel" not in t and ("dempotent" in f["q"] or always):
                ctx.bad("write-funnel", f["q"], "noop-skip", "%s:%d" % (f["file"], f["l"]), "%s is skipped in no-op mode" % f["q"], x.trace())
            if n.k == "call" and n.q == "SQuery":
                ctx.bad("write-funnel", f["q"], "direct", n.where(), "%s executes SQL without recording it for replication" % f["q"], x.trace())
            return t
        ctx.explore(gw, Flow(wev, r"_noopUpdateMode$"))

    # unreplicated local writes never run inside a transaction
    lu = p.fn("SQLite::writeLocalUnreplicated")
    gl = ctx.graph(lu, same_class)

    def lev(n, t, facts, x):
        if n.k == "call" and n.q == "SQuery":
            ctx.ok("unreplicated writes run only outside a transaction", n.where())
            if known(facts, ATOM_INSIDE) is not False:
                ctx.bad("unreplicated-inside", lu["q"], "exec", n.where(), "an unreplicated write can run inside the handle's open transaction", x.trace())
            s = (squery_sql(x.g, n) or "").upper()
            if s.startswith("BEGIN"):
                t = t | {"open"}
            elif s.startswith("ROLLBACK"):
                t = t - {"open"}
            elif s.startswith("COMMIT"):
                t = t | {("commit", x.g.canon(n.e, n.fr))}
        if n.k in ("exit", "excexit") and "open" in t:
            okc = any(k[0] == "eq" and k[2] == "c:0" and vv is True and any(y[1] == k[1] for y in t if isinstance(y, tuple)) for k, vv in facts)
            failb = any(k[0] == "eq" and k[2] == "c:0" and vv is False and "BEGIN" in k[1] for k, vv in facts)
            if not okc and not failb:
                ctx.bad("unreplicated-inside", lu["q"], "left-open", "%s:%d" % (lu["file"], lu["l"]), "an unreplicated write can leave its own transaction open on the handle", x.trace())
        return t
    ctx.explore(gl, Flow(lev, r"_insideTransaction$|^SQuery@"))

    # no-op mode changes inside a transaction are recorded
    sn = p.fn("SQLite::setUpdateNoopMode")
    gn = ctx.graph(sn, same_class)

    def nev(n, t, facts, x):
        if n.k == "call" and n.q == "SQuery":
            t = t | {("ran", x.g.canon(n.e["a"][1], n.fr))}
        for fld, path, const, canon in written(n, x.g):
            if fld == UQ and n.k in ("call", "icall"):
                a = call_args(n)
                if (n.e.get("op") or n.q.split("::")[-1]) not in ("+=", "append") or ("ran", x.g.canon(a[-1], n.fr)) not in t:
                    ctx.bad("noop-recorded", sn["q"], "text", n.where(), "the recorded no-op mode statement is not the one executed", x.trace())
                t = t | {"rec"}
            if fld == "SQLite::_noopUpdateMode":
                t = t | {"set"}
        if n.k == "exit" and ("set" in t or any(isinstance(y, tuple) for y in t)):
            ctx.ok("no-op mode changes inside a transaction are replicated", "path to exit")
            if known(facts, ATOM_INSIDE) is not False and "rec" not in t:
                ctx.bad("noop-recorded", sn["q"], "missing", "%s:%d" % (sn["file"], sn["l"]), "changing no-op mode inside a transaction is not recorded for replication", x.trace())
        return t
    ctx.explore(gn, Flow(nev, r"_insideTransaction$"), facts=start_facts(False, True))

    # who may change the replicated query at all
    allowed = {fn, "SQLite::setUpdateNoopMode", "SQLite::commit", "SQLite::rollback", "SQLite::prepare"}
    direct = [f for f in p.fns.values() if UQ in p.direct_mod(f)]
    for f in direct:
        hit, roots = up_roots(p, [f["id"]], allowed)
        ctx.ok("the replicated query is only changed by write, no-op mode, prepare, commit, rollback", p.outer(f)["q"])
        for r in roots:
            ctx.bad("query-writer", r, "write", "%s:%d" % (f["file"], f["l"]), "%s changes the replicated query" % r)
    for name in ("SQLite::commit", "SQLite::rollback"):
        f = p.fn(name)
        gg = ctx.graph(f, same_class)

        def cev(n, t, facts, x):
            if n.k == "call" and n.q == "SQuery" and (squery_sql(x.g, n) or "").upper().startswith("COMMIT"):
                t = t | {("commit", x.g.canon(n.e, n.fr))}
            for fld, path, const, canon in written(n, x.g):
                if fld == UQ:
                    ctx.ok("commit/rollback empty the replicated query with the transaction", n.where())
                    if const != 'c:""':
                        ctx.bad("query-cleared", name, "edit", n.where(), "%s edits the replicated query" % name, x.trace())
                    if name.endswith("commit") and not any(k[0] == "eq" and "\"COMMIT\"" in k[1] and k[2] == "c:0" and vv is True for k, vv in facts):
                        ctx.bad("query-cleared", name, "early", n.where(), "the replicated query is emptied although COMMIT is not known to have succeeded", x.trace())
                    t = t | {"cleared"}
                if fld == INSIDE and const == "c:false":
                    t = t | {"closed"}
            if n.k == "exit" and "closed" in t and "cleared" not in t:
                ctx.bad("query-cleared", name, "stale", "%s:%d" % (f["file"], f["l"]), "%s ends the transaction but leaves its statements to leak into the next one" % name, x.trace())
            return t
        ctx.explore(gg, Flow(cev, r"\"COMMIT\"|_insideTransaction$"), facts=start_facts(True, True))

    # the expansion itself
    sq = [f for f in p.fns_q("SQuery") if any(True for _ in calls_in(f, "sqlite3_step"))]
    ctx.require(len(sq) == 1, "the SQuery implementation was not found")
    sq = sq[0]
    gq = ctx.graph(sq, lambda h, e, fr: h.get("lambda") or (h["file"] == sq["file"] and any(True for _ in calls_in(h, {"sqlite3_step", "sqlite3_finalize", "sqlite3_expanded_sql"}))))
    outp = [q["n"] + "#0" for q in sq["p"] if re.match(r"(const )?std::(__cxx11::)?basic_string<.*\*$", q["t"])]
    ctx.require(outp, "SQuery has no expansion output")
    outp = outp[0]
    sqlp = next((q["n"] + "#0" for q in sq["p"] if re.match(r"const std::(__cxx11::)?basic_string<.*&$", q["t"])), "?")
    cnt = {"app": 0}
    errs, exps = set_from(gq, {"sqlite3_step"}), set_from(gq, {"sqlite3_expanded_sql"})
    ctx.require(errs and exps, "SQuery: the results of sqlite3_step / sqlite3_expanded_sql were not found")
    flags = flags_of(gq, lambda e, fr: e.get("k") == "var" and e.get("vk") != "global" and gq.canon(e, fr) in errs | exps | {outp})

    def qev(n, t, facts, x):
        if n.k == "call" and n.q == "sqlite3_step":
            t = (t - {"appended"}) | {"stepped"}
        if n.k == "call" and n.e.get("op") == "+=" and "obj" in n.e and x.g.canon(n.e["obj"], n.fr) == outp:
            cnt["app"] += 1
            o, of = origin(n.e["a"][0], n.fr, x.g)
            if not (isinstance(o, dict) and o.get("q") == "sqlite3_expanded_sql"):
                ctx.bad("expansion", "SQuery", "source", n.where(), "the text reported as executed is not the statement with its parameters expanded", x.trace())
            if "stepped" not in t:
                ctx.bad("expansion", "SQuery", "before-step", n.where(), "text is reported as executed before the statement ran", x.trace())
            t = (t | {"appended", "dirty"})
        elif n.k == "call" and "obj" in n.e and x.g.canon(n.e["obj"], n.fr) == outp and (n.q.endswith("::clear") or n.e.get("op") == "="):
            if n.e.get("op") == "=" and const_of(n.e["a"][0]) != 'c:""':
                cnt["app"] += 1
                ctx.bad("expansion", "SQuery", "overwrite", n.where(), "the expanded text of earlier statements is overwritten", x.trace())
            t = t - {"dirty"}
        if n.k == "call" and n.q == "sqlite3_finalize" and "stepped" in t:
            ctx.ok("every executed statement is part of the expanded text", n.where())
            if "appended" not in t and known(facts, ("t", outp)) is not False and not any(k[0] == "eq" and k[2] == "c:0" and vv is False and k[1] in errs for k, vv in facts) and not any(k[0] == "t" and k[1] in exps and vv is False for k, vv in facts):
                ctx.bad("expansion", "SQuery", "missing", n.where(), "a statement can succeed without being part of the expanded text", x.trace())
            t = t - {"stepped"}
        if n.k in ("decl", "assign") and n.x and n.x[2] and re.fullmatch(re.escape(sqlp) + r"(\.c_str\(\)|\.data\(\))?", n.x[2]) and "dirty" in t and "char *" in (n.e.get("t") if n.k == "decl" else strip(n.e.get("x") or {}).get("t", "")):
            ctx.bad("expansion", "SQuery", "retry-duplicate", n.where(), "a retry starts over without discarding the text of the failed attempt", x.trace())
        return t
    ctx.explore(gq, Flow(qev, paths_re(errs, exps, {outp}, flags), only=r"^ret\d+"))
    ctx.require(cnt["app"], "SQuery: expansion append not recognised")


# ------------------------------------------------------------------------------------------------------------ C04
CACHE, DET = "SQLite::_queryCache", "SQLite::_isDeterministicQuery"
NONDET = ["random", "randomblob", "date", "time", "datetime", "julianday", "strftime", "unixepoch", "timediff", "current_timestamp", "current_date", "current_time",
          "changes", "total_changes", "last_insert_rowid", "sqlite_version"]


def authorize_walk(ctx, subjects, events, track, facts=()):
    a = ctx.p.fn("SQLite::_authorize")
    if not hasattr(ctx, "_authg"):
        ctx._authg = ctx.graph(a, same_class)
    names = [q["n"] + "#0" for q in a["p"]]
    sub = {names[i]: v for i, v in subjects.items()}
    fs = set(facts)
    for k, v in sub.items():
        fs.add((("eq", k, v), True))
        if v.startswith('c:"'):
            fs.add((("t", k), True))
    return ctx.explore(ctx._authg, Flow(events, track + r"|_enableRewrite$|_currentlyWriting$|whitelist$", edges=decide_edge(sub)), facts=frozenset(fs))


@prop("C04")
def read_cache(ctx):
    p = ctx.p
    reads = [f for f in p.fns_q("SQLite::read") if CACHE in p.direct_mod(f) or any(e.get("k") == "mem" and e["q"] == CACHE for e in fn_exprs(f))]
    alt = [f for f in p.methods_of("SQLite") if any(e.get("k") == "call" and "obj" in e and mutex_field(e["obj"]) == CACHE and e["q"].split("::")[-1] in ("emplace", "insert", "insert_or_assign", "try_emplace", "operator[]") for e in fn_exprs(f))]
    roots = {f["id"]: f for f in p.fns_q("SQLite::read") if "SQResult &" in f["id"] and "map" in f["id"]}
    ctx.require(roots, "SQLite::read(query, params, result) not found")
    seen = {"insert": 0, "hit": 0}
    for f in roots.values():
        g = ctx.graph(f, same_class)
        pq = [q["n"] + "#0" for q in f["p"] if "basic_string" in q["t"] and "map" not in q["t"]][0]
        pp = [q["n"] + "#0" for q in f["p"] if "map<" in q["t"]][0]
        pr = [q["n"] + "#0" for q in f["p"] if q["t"].startswith("SQResult")][0]
        EMPTY = ("eq", pp + ".size()", "c:0")

        def events(n, t, facts, x):
            w = written(n, x.g)
            for fld, path, const, canon in w:
                if fld == DET:
                    t = t - {"det"}
                    if const == "c:true":
                        t = t | {"det"}
            if n.k == "call" and n.q == "SQuery":
                if "det" not in t:
                    ctx.bad("cache-fresh", f["q"], "flag", n.where(), "a query runs with the determinism mark of an earlier query", x.trace())
                r = squery_arg(n, 2)
                if x.g.canon(n.e["a"][1], n.fr) != pq:
                    ctx.bad("cache-fresh", f["q"], "query", n.where(), "read executes something other than its query", x.trace())
                t = t | {("ran", x.g.canon(n.e, n.fr))}
            obj = n.e.get("obj") if n.k in ("call", "icall") and isinstance(n.e, dict) else None
            on_cache = obj is not None and mutex_field_in(obj, n.fr, x.g) == CACHE
            nm = n.q.split("::")[-1] if n.k in ("call", "icall") else ""
            if on_cache and nm in ("emplace", "insert", "insert_or_assign", "try_emplace", "operator[]"):
                seen["insert"] += 1
                ctx.ok("only deterministic, parameterless, successful reads inside a transaction are cached", n.where())
                if known(facts, EMPTY) is not True:
                    ctx.bad("cache-insert", f["q"], "params", n.where(), "a result obtained with bound parameters can be cached under the bare SQL text", x.trace())
                if known(facts, ("t", "this._isDeterministicQuery")) is not True:
                    ctx.bad("cache-insert", f["q"], "nondeterministic", n.where(), "the result of a non-deterministic query can be cached", x.trace())
                if known(facts, ATOM_INSIDE) is not True:
                    ctx.bad("cache-insert", f["q"], "outside", n.where(), "a result read outside a transaction can be cached", x.trace())
                rans = [y[1] for y in t if isinstance(y, tuple) and y[0] == "ran"]
                if not any(k[0] == "eq" and k[1] in rans and k[2] == "c:0" and v is True for k, v in facts) and not any(k[0] == "t" and "Result" in k[1] and v is True for k, v in facts):
                    ctx.bad("cache-insert", f["q"], "failed", n.where(), "the result of a failed query can be cached", x.trace())
                txt = x.g.canon(n.e, n.fr)
                if pq not in txt or pr not in txt and nm != "operator[]":
                    ctx.bad("cache-insert", f["q"], "entry", n.where(), "the cache entry is not (query, result)", x.trace())
            # a hit: the result is taken from the cache
            if n.k in ("call", "icall") and n.e.get("op") == "=" and "obj" in n.e and x.g.canon(n.e["obj"], n.fr) == pr:
                vals = [o for o in all_values(n.e["a"][0], n.fr, x.g)]
                src = strip(n.e["a"][0])
                base = src
                while isinstance(base, dict) and base.get("k") in ("mem", "call") and not (base.get("k") == "call" and mutex_field(base.get("obj")) == CACHE):
                    base = strip(base.get("b") or base.get("obj") or {})
                cand = all_values(base, n.fr, x.g) if isinstance(base, dict) and base.get("k") == "var" else [(base, n.fr)]
                fromc = [(c, fr) for c, fr in cand if isinstance(c, dict) and any(y.get("k") == "mem" and y["q"] == CACHE for y in walk(c))]
                if fromc:
                    seen["hit"] += 1
                    ctx.ok("a cached result is used only for the same parameterless query", n.where())
                    if known(facts, EMPTY) is not True and ("guarded",) not in t:
                            ctx.bad("cache-hit", f["q"], "params", n.where(), "a read with bound parameters can be answered from the cache", x.trace())
                    for c, fr in fromc:
                        for y in walk(c):
                            if y.get("k") == "call" and y.get("q", "").split("::")[-1] in ("find", "at", "operator[]") and mutex_field(y.get("obj")) == CACHE and x.g.canon(y["a"][0], fr) != pq:
                                ctx.bad("cache-hit", f["q"], "key", n.where(), "the cache is looked up under another key than the query", x.trace())
                    t = t | {"hit"}
            if on_cache and nm == "find":
                if known(facts, EMPTY) is True:
                    t = (t - {("unguarded",)}) | {("guarded",)}
                else:
                    t = (t - {("guarded",)}) | {("unguarded",)}
            if n.k == "exit" and "hit" not in t and not any(isinstance(y, tuple) and y[0] == "ran" for y in t):
                ctx.bad("cache-hit", f["q"], "nothing", "%s:%d" % (f["file"], f["l"]), "read can return without running the query or using the cache", x.trace())
            return t
        ctx.explore(g, Flow(events, r"_isDeterministicQuery$|_insideTransaction$|^SQuery@|%s\.size|Result#0$|_queryCache\.end" % re.escape(pp)))
    ctx.require(seen["insert"] == 0 or seen["hit"], "cache hit not recognised")

    # the cache is emptied at every point that can change what a query returns
    def cleared_on(name, when, text, start, track=r"\"COMMIT\"|_insideTransaction$|^ret0"):
        for f in p.fns_q(name):
            gg = ctx.graph(f, same_class)

            def ev(n, t, facts, x):
                for fld, path, const, canon in written(n, x.g):
                    if fld == CACHE and const == 'c:""':
                        t = t | {"cleared"}
                    elif fld == CACHE and n.k == "call" and n.q.split("::")[-1] in ("swap",) or (fld == CACHE and n.e.get("op") == "="):
                        t = t | {"cleared"}
                r = when(n, t, facts, x)
                if r:
                    ctx.ok("cache emptied on begin, write, commit, rollback, authorizer change", name)
                    if "cleared" not in t:
                        ctx.bad("cache-clear", name, "missing", n.where() if n.k != "exit" else "%s:%d" % (f["file"], f["l"]), text, x.trace())
                return t
            ctx.explore(gg, Flow(ev, track), facts=start)
    ex = lambda n, t, facts, x: n.k == "exit"
    cleared_on("SQLite::beginTransaction", ex, "a transaction can begin with results cached before it", start_facts(False, False))
    cleared_on("SQLite::rollback", ex, "a rollback leaves results cached during the transaction", start_facts(False, True))
    cleared_on("SQLite::setAuthorizer", ex, "results read under another authorizer stay cached", frozenset())
    cleared_on("SQLite::_writeIdempotent", lambda n, t, facts, x: n.k == "call" and n.q == "SQuery" and not is_pragma(squery_sql(x.g, n)), "a write runs while results read before it stay cached", start_facts(False, True))
    cleared_on("SQLite::commit", lambda n, t, facts, x: n.k == "exit" and any(k[0] == "eq" and '"COMMIT"' in k[1] and k[2] == "c:0" and v is True for k, v in facts), "a commit leaves results cached during the transaction", start_facts(True, True))
    # cached entries are added in read only
    for f in p.fns.values():
        for e in fn_exprs(f):
            if e.get("k") == "call" and "obj" in e and mutex_field(e["obj"]) == CACHE and e["q"].split("::")[-1] in ("emplace", "insert", "insert_or_assign", "try_emplace", "operator[]"):
                hit, rts = up_roots(p, [f["id"]], {"SQLite::read"})
                ctx.ok("only read adds to the cache", p.outer(f)["q"])
                for r in rts:
                    ctx.bad("cache-writer", r, "insert", "%s:%d" % (f["file"], e["l"]), "%s adds to the read cache" % r)
    # non-deterministic functions mark the query
    for name in NONDET:
        res = []

        def ev(n, t, facts, x):
            for fld, path, const, canon in written(n, x.g):
                if fld == DET:
                    t = (t | {"nondet"}) if const == "c:false" else (t - {"nondet"})
            if n.k == "exit":
                ctx.ok("non-deterministic functions keep a query out of the cache", name)
                if "nondet" not in t:
                    ctx.bad("cache-function", "SQLite::_authorize", name, n.where(), "a query calling %s() is treated as deterministic and cached" % name, x.trace())
            return t
        authorize_walk(ctx, {0: "c:31", 2: 'c:"%s"' % name}, ev, r"_currentlyWriting$", facts=[(("t", "this._enableRewrite"), False), (("t", "this._currentlyWriting"), False)])


# ------------------------------------------------------------------------------------------------------------ C05
ACTIONS = {1: "CREATE_INDEX", 2: "CREATE_TABLE", 3: "CREATE_TEMP_INDEX", 4: "CREATE_TEMP_TABLE", 5: "CREATE_TEMP_TRIGGER", 6: "CREATE_TEMP_VIEW", 7: "CREATE_TRIGGER", 8: "CREATE_VIEW",
           9: "DELETE", 10: "DROP_INDEX", 11: "DROP_TABLE", 12: "DROP_TEMP_INDEX", 13: "DROP_TEMP_TABLE", 14: "DROP_TEMP_TRIGGER", 15: "DROP_TEMP_VIEW", 16: "DROP_TRIGGER", 17: "DROP_VIEW",
           18: "INSERT", 19: "PRAGMA", 20: "READ", 21: "SELECT", 22: "TRANSACTION", 23: "UPDATE", 24: "ATTACH", 25: "DETACH", 26: "ALTER_TABLE", 27: "REINDEX", 28: "ANALYZE", 29: "CREATE_VTABLE",
           30: "DROP_VTABLE", 31: "FUNCTION", 32: "SAVEPOINT", 0: "COPY", 33: "RECURSIVE", 99: "(any future action)"}
WRITE_DENY = ["random", "randomblob", "current_timestamp", "current_date", "current_time", "last_insert_rowid", "changes", "total_changes", "sqlite_version"]


@prop("C05")
def authorizer(ctx):
    p = ctx.p
    a = p.fn("SQLite::_authorize")
    names = [q["n"] + "#0" for q in a["p"]]
    where = "%s:%d" % (a["file"], a["l"])
    base = [(("t", "this._enableRewrite"), False)]
    W = ("t", "this.whitelist")
    MAYREAD = {19, 20, 21, 28, 31}

    def result(facts):
        for k, v in facts:
            if k[0] == "eq" and k[1] == "ret0" and v is True:
                return k[2]
        return None

    def lookups(n, lab, m, t, facts, x):
        """Tokens for successful look-ups in the whitelist: column name found in the entry of the table name."""
        if n.k != "branch":
            return t
        for y in [n.e]:
            s = strip(y)
            pos = None
            o = None
            if isinstance(s, dict) and s.get("k") in ("bin", "call") and s.get("op") in ("==", "!="):
                ar = [s.get("x"), s.get("y")] if s["k"] == "bin" else (([s["obj"]] if "obj" in s else []) + s.get("a", []))
                for u, v in ((ar[0], ar[1]), (ar[1], ar[0])):
                    ov, fv = origin(v, n.fr, x.g)
                    if isinstance(ov, dict) and ov.get("k") == "call" and ov.get("q", "").split("::")[-1] in ("end", "cend"):
                        o = origin(u, n.fr, x.g)
                        pos = s["op"] == "!="
                    elif const_of(v) == "c:0":
                        o = origin(u, n.fr, x.g)
                        pos = s["op"] == "!="
            elif isinstance(s, dict) and s.get("k") == "call":
                o = (s, n.fr)
                pos = True
            elif isinstance(s, dict) and s.get("k") == "var":
                o = origin(s, n.fr, x.g)
                pos = True
            if o and isinstance(o[0], dict) and o[0].get("k") == "call" and o[0].get("q", "").split("::")[-1] in ("find", "count", "contains") and o[0].get("a"):
                key = x.g.canon(o[0]["a"][0], o[1])
                key = re.sub(r"^.*\{(.*)\}$", r"\1", key)
                cont = x.g.canon(o[0]["obj"], o[1])
                oc, ocf = origin(o[0]["obj"], o[1], x.g)
                while isinstance(oc, dict) and oc.get("k") == "mem" and oc["n"] == "second":
                    oc, ocf = origin(oc["b"], ocf, x.g)
                nested = isinstance(oc, dict) and oc.get("k") == "call" and oc.get("q", "").split("::")[-1] in ("find", "at", "operator[]") and x.g.canon(oc["obj"], ocf).endswith(".whitelist") and re.sub(r"^.*\{(.*)\}$", r"\1", x.g.canon(oc["a"][0], ocf)) == names[1]
                if (lab == "T") == pos:
                    if cont.endswith(".whitelist") and key == names[1]:
                        t = t | {"table"}
                    elif nested and key == names[2]:
                        t = t | {"column"}
        return t
    for code, an in sorted(ACTIONS.items()):
        outs = set()

        def ev(n, t, facts, x):
            if n.k == "exit":
                r = result(facts)
                outs.add(r)
                ctx.ok("whitelist mode decides every action code", an)
                if r != "c:1":
                    if code == 20:
                        if r == "c:0" and not ({"table", "column"} <= t):
                            ctx.bad("whitelist", a["q"], "READ", where, "with a whitelist, a column can be read that is not listed for its table", x.trace())
                        if r not in ("c:0", "c:2"):
                            ctx.bad("whitelist", a["q"], "READ-result", where, "with a whitelist, reading yields %s" % r, x.trace())
                    elif code == 19:
                        if r != "c:0" or not any(k[0] == "eq" and k[2] == 'c:"schema_version"' and v is True for k, v in facts) or not any(k in (("eq", names[2], "c:0"), ("t", names[2])) and v is (k[0] == "eq") for k, v in facts):
                            ctx.bad("whitelist", a["q"], "PRAGMA", where, "with a whitelist, a pragma other than reading schema_version can be allowed", x.trace())
                    elif code not in MAYREAD:
                        ctx.bad("whitelist", a["q"], an, where, "with a whitelist, %s is not denied" % an, x.trace())
            return t
        f = frozenset(base + [(W, True), (("eq", names[0], "c:%d" % code), True)])
        if not hasattr(ctx, "_authg"):
            ctx._authg = ctx.graph(a, same_class)
        de = decide_edge({names[0]: "c:%d" % code})

        def edge(n, lab, m, t, facts, x):
            if de(n, lab, m, t, facts, x) is STOP:
                return STOP
            return lookups(n, lab, m, t, facts, x)
        ctx.explore(ctx._authg, Flow(ev, r"^ret0|whitelist$|_enableRewrite$|schema_version|^%s" % re.escape(names[2]), edges=edge), facts=f)
        ctx.require(outs, "_authorize: no result for action %d" % code)
    # non-deterministic functions are refused while writing, whitelist or not
    for name in WRITE_DENY:
        def ev(n, t, facts, x):
            if n.k == "exit":
                ctx.ok("non-deterministic functions are refused in writes", name)
                if result(facts) != "c:1":
                    ctx.bad("write-function", a["q"], name, where, "%s() is allowed in a replicated write" % name, x.trace())
            return t
        authorize_walk(ctx, {0: "c:31", 2: 'c:"%s"' % name}, ev, r"^ret0|_currentlyWriting$", facts=base + [(("t", "this._currentlyWriting"), True)])
    # the installed authorizer's refusal wins
    def ev(n, t, facts, x):
        if n.k == "call" and "obj" in n.e and n.e.get("op") == "()" and mutex_field_in(n.e["obj"], n.fr, x.g) == "SQLite::_authorizer":
            t = t | {("asked", x.g.canon(n.e, n.fr))}
            ar = [x.g.canon(z, n.fr) for z in call_args(n)]
            if ar != names:
                ctx.bad("custom-authorizer", a["q"], "arguments", n.where(), "the installed authorizer is not asked about the actual action", x.trace())
        if n.k == "exit":
            r = result(facts)
            ctx.ok("the installed authorizer is asked and its refusal wins", "path to exit")
            asked = [y[1] for y in t]
            if r != "c:1":
                if not asked and known(facts, ("t", "this._authorizer")) is not False:
                    ctx.bad("custom-authorizer", a["q"], "skipped", where, "an action can be allowed without asking the installed authorizer", x.trace())
                if asked and not any(k[0] == "t" and k[1] in asked and v is True for k, v in facts):
                    ctx.bad("custom-authorizer", a["q"], "overruled", where, "an action refused by the installed authorizer can still be allowed", x.trace())
        return t
    authorize_walk(ctx, {}, ev, r"^ret0|_authorizer", facts=base)
    # while the user's statement of a write runs, the handle says so
    wi = p.fn("SQLite::_writeIdempotent")
    g = ctx.graph(wi, same_class)

    def wev(n, t, facts, x):
        if n.k == "call" and n.q == "SQuery" and not is_pragma(squery_sql(x.g, n)):
            ctx.ok("a write runs marked as writing and leaves the mark cleared", n.where())
            if known(facts, ("t", "this._currentlyWriting")) is not True:
                ctx.bad("writing-mark", wi["q"], "unset", n.where(), "a write runs without being marked as one, so that non-deterministic functions are allowed in it", x.trace())
        if n.k in ("exit", "excexit"):
            if known(facts, ("t", "this._currentlyWriting")) is not False:
                ctx.bad("writing-mark", wi["q"], "left-" + n.k, "%s:%d" % (wi["file"], wi["l"]), "a write can end leaving the handle marked as writing, so that later reads are refused functions", x.trace())
            if known(facts, ("t", "this._currentlyRunningRewritten")) is not False:
                ctx.bad("writing-mark", wi["q"], "rewritten-" + n.k, "%s:%d" % (wi["file"], wi["l"]), "a write can end leaving the handle marked as running a rewritten query", x.trace())
        return t
    ctx.explore(g, Flow(wev, r"_currentlyWriting$|_currentlyRunningRewritten$|_insideTransaction$"), facts=frozenset(list(start_facts(False, True)) + [(("t", "this._currentlyWriting"), False), (("t", "this._currentlyRunningRewritten"), False)]))
    # every handle installs the callback, and nobody replaces it
    cb = p.fn("SQLite::_sqliteAuthorizerCallback")
    ctx.require(a["id"] in p.reach([cb["id"]]), "the authorizer callback does not reach _authorize")
    ctors = [f for f in p.methods_of("SQLite") if f.get("isctor")]
    ctx.require(len(ctors) >= 2, "SQLite constructors not found")
    for f in ctors:
        if not any(True for _ in p.reach([f["id"]]) if any(calls_in(p.fns[_], "sqlite3_set_authorizer"))):
            ctx.bad("authorizer-installed", f["q"], "ctor", "%s:%d" % (f["file"], f["l"]), "a handle can be constructed without the authorizer")
            continue
        gg = ctx.graph(f, same_class)

        def cev(n, t, facts, x):
            if n.k == "call" and n.q == "sqlite3_set_authorizer":
                ar = call_args(n)
                o, of = origin(ar[1], n.fr, x.g)
                if any(y.get("k") == "fref" and y.get("f") == cb["id"] for y in walk(o)) or (isinstance(o, dict) and o.get("k") == "fref" and o.get("f") == cb["id"]):
                    t = t | {"installed"}
                else:
                    t = t - {"installed"}
            if n.k == "exit":
                ctx.ok("every handle installs the authorizer", f["q"])
                if "installed" not in t:
                    ctx.bad("authorizer-installed", f["q"], "ctor", "%s:%d" % (f["file"], f["l"]), "a handle can be constructed without the authorizer", x.trace())
            return t
        ctx.explore(gg, Flow(cev))
    for f in p.fns.values():
        for e in calls_in(f, "sqlite3_set_authorizer"):
            hit, rts = up_roots(p, [f["id"]], {c["q"] for c in ctors})
            for r in rts:
                ctx.bad("authorizer-installed", r, "replaced", "%s:%d" % (f["file"], e["l"]), "%s replaces the authorizer callback" % r)
    # the callback passes everything through
    gcb = ctx.graph(cb, lambda *z: False)
    pn = [q["n"] + "#0" for q in cb["p"]]
    for n in gcb.nodes:
        if n.k == "call" and n.q == a["q"]:
            ctx.ok("the callback forwards the action and returns the decision", n.where())
            if [gcb.canon(z, n.fr) for z in call_args(n)] != pn[1:]:
                ctx.bad("authorizer-forward", cb["q"], "arguments", n.where(), "the authorizer callback does not forward the action it was asked about")
    for n in gcb.nodes:
        if n.k == "return" and not any(y.get("q") == a["q"] for y in walk(origin(n.e.get("e"), n.fr, gcb)[0])):
            ctx.bad("authorizer-forward", cb["q"], "result", n.where(), "the authorizer callback does not return the decision")
