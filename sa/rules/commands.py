"""The commands of the Cache and DB plugins."""
from . import prop
from ..lib import *
from ..absint import *
from .. import minisql, linked
import itertools
from .jobs import World, Checker, Obj, Req, Sealed, norm_value

PC = "BedrockCacheCommand::"
LRU = "BedrockPlugin_Cache::LRUMap::"


def triggers(ctx):
    """{event: (n, o)}: how often the length of the new and of the old value is added to the size of the cache."""
    out = {}
    for f in [ctx.p.fn("BedrockPlugin_Cache::upgradeDatabase")]:
        for e in fn_exprs(f):
            if e.get("k") != "str" or "CREATE TRIGGER" not in e["v"].upper():
                continue
            t = re.sub(r"\s+", "", e["v"].upper())
            m = re.search(r"AFTER(INSERT|UPDATE|DELETE)ONCACHEBEGINUPDATECACHESIZESETSIZE=(.*?);", t)
            if not m:
                continue
            terms = re.findall(r"([+-]?)(LENGTH\((?:NEW|OLD)\.VALUE\)|SIZE|[^+-]+)", m.group(2))
            n = {"NEW": 0, "OLD": 0}
            for sign, x in terms:
                k = re.match(r"LENGTH\((NEW|OLD)\.VALUE\)$", x)
                if k:
                    n[k.group(1)] += -1 if sign == "-" else 1
                elif x != "SIZE" or sign == "-":
                    n["NEW"] = None
                    break
            out[m.group(1).lower()] = n
    return out


class CacheWorld(World):
    CLS, FILES = PC, ("Cache.cpp", "Cache.h")

    def make(self):
        rows = [{"name": n, "value": v} for n, v in self.sc["rows"]]
        self.size = {"size": sum(len(r["value"]) for r in rows)}
        self.lru = list(self.sc.get("lru", ()))
        self.dropped = []
        return minisql.Table("cache", rows, self.ask, {}, {"cachesize": [self.size]}, ("name",), self.changed)

    def changed(self, event, old, new):
        t = self.sc["triggers"].get(event)          # a replaced row fires no trigger of its own
        if event in ("delete", "replace"):
            self.dropped.append(old["name"])
        if t is None:
            return
        if t["NEW"] is None:
            raise Give("a trigger of the cache")
        self.size["size"] += t["NEW"] * (len(new["value"]) if new else 0) + t["OLD"] * (len(old["value"]) if old else 0)

    def fields(self):
        self.req.content.v = Str(self.sc.get("body", ""))
        self.response = Req("", {}, Sealed)
        self.response.content.v = Str()
        return {"response": Cell(self.response), "_plugin": Cell(Obj({"_maxCacheSize": Cell(self.sc["max"]), "_lruMap": Cell(Term("lru"))}))}

    def call(self, I, e, q, fr):
        self.I = I
        if q == LRU + "popLRU":
            return Cell(CPair(Str(self.lru.pop(0)) if self.lru else Str(), Cell(1))) if self.lru else Cell(CPair(Str(), Cell(0)))
        if q == LRU + "pushMRU":
            n = I.to_str(I.ev(e["a"][0], fr)).lit
            if n is None:
                raise Give("the name of the entry is not known")
            if n in self.lru:
                self.lru.remove(n)
            self.lru.append(n)
            return Cell(0)
        if q == LRU + "empty":
            return Cell(int(not self.lru))
        return World.call(self, I, e, q, fr)


def cache(ctx):
    tr = triggers(ctx)
    C = Checker(ctx, "written, evicted and accounted as the limit says", CacheWorld)
    ctx.require(set(tr) == {"insert", "update", "delete"}, "the triggers of the cache: %s" % sorted(tr))

    def scene(what, rows, lru, new, limit=100, invalidate=None, header=True, max_=None, nofail=False):
        name, n = new
        req = {"name": name, "value": "v" * n if header and n else None, "invalidateName": invalidate}
        sc = dict(verb="WriteCache", rows=rows, lru=lru, req=req, json={}, max=limit, triggers=tr, nofail=nofail, body="" if header else "v" * n)
        glob = minisql.fnmatch.fnmatchcase
        left = [r for r in rows if not (invalidate and glob(r[0], invalidate))]

        def judge(w, I):
            have = {}
            for r in w.table.rows:
                if r["name"] in have:
                    return "there are two entries of one name"
                have[r["name"]] = r["value"]
            if have.get(name) != "v" * n:
                return "the entry has %s afterwards" % ("%d bytes" % len(have[name]) if isinstance(have.get(name), str) else "no value")
            total = sum(len(v) for v in have.values())
            if w.size["size"] != total:
                return "the recorded size is %s, the entries have %s" % (w.size["size"], total)
            if total > limit:
                return "the cache holds %d bytes, its limit is %d" % (total, limit)
            for r in left:
                if r[0] in have and r[0] != name and have[r[0]] != r[1]:
                    return "another entry changes"
            for r in rows:
                if r not in left and r[0] != name and r[0] in have:
                    return "an entry that was to be invalidated is still there"
            # what was evicted: in the order of their last use, and only for room
            size = sum(len(v) for _, v in left)
            gone = [r[0] for r in left if r[0] not in have]
            order = [x for x in lru if x in dict(left)]
            order += [r[0] for r in left if r[0] not in order]
            must = []
            for x in order:
                if size + n <= limit:
                    break
                must.append(x)
                size -= len(dict(left)[x])
            known = [x for x in must if x in lru]
            if [x for x in gone if x in lru and x != name] != [x for x in [r[0] for r in left] if x in known and x != name] or len([x for x in gone if x != name]) > len([x for x in must if x != name]):
                return "the entries %s are evicted, not %s" % (gone, must)
            if not w.lru or w.lru[-1] != name:
                return "what was written is not the most recently used"
            return None
        must = True
        if n == 0 or n > limit:
            must = False
        C.check(sc, ("peek", "process"), judge, must, what)
    E = lambda **k: [(a, "x" * b) for a, b in k.items()]
    for header in (True, False):
        scene("empty cache", [], [], ("n", 30), header=header)
        scene("no value", [], [], ("n", 0), header=header)
        scene("too large", E(a=10), ["a"], ("n", 101), header=header)
        scene("just fits", E(a=10), ["a"], ("n", 100), header=header)
        scene("overwritten", E(n=30), ["n"], ("n", 40), header=header)
    scene("overwritten, nothing else known", E(n=30, a=20), [], ("n", 40))
    scene("room enough", E(a=30, b=30), ["a", "b"], ("n", 40))
    scene("one is evicted", E(a=30, b=30), ["b", "a"], ("n", 41))
    scene("two are evicted", E(a=30, b=30, c=30), ["c", "a", "b"], ("n", 65))
    scene("all are evicted", E(a=30, b=30, c=30), ["c", "a", "b"], ("n", 99))
    scene("not all are known", E(a=30, b=30, c=30), ["b"], ("n", 65))
    scene("none is known", E(a=30, b=30, c=30), [], ("n", 11))
    scene("used ones that are gone", E(a=30, b=30), ["x", "y", "b", "z", "a"], ("n", 41), nofail=True)
    scene("overwritten and evicted", E(n=30, a=60), ["a", "n"], ("n", 50))
    scene("overwritten and evicted itself", E(n=30, a=60), ["n", "a"], ("n", 38))
    for inv in ("a*", "b1", "*", "n", "zz"):
        scene("invalidating %s" % inv, E(a1=20, b1=20, a2=20), ["a1", "b1", "a2"], ("n", 30), invalidate=inv)
        scene("invalidating %s, own" % inv, E(a1=20, n=20), ["a1", "n"], ("n", 30), invalidate=inv)
    scene("invalidating makes room", E(a=50, b=50), ["b", "a"], ("n", 40), invalidate="a")
    for what, rows, pat, hit in (("exact", E(a=5, b=6), "b", "b"), ("pattern", E(xa=5, b=6), "x*", "xa"), ("none", E(a=5), "z*", None), ("case", E(a=5), "A", None)):
        sc = dict(verb="ReadCache", rows=rows, lru=["b", "a"], req={"name": pat}, json={}, max=100, triggers=tr)

        def judge(w, I):
            got = w.response.cells["name"].v if "name" in w.response.cells else None
            if got is None or I.to_str(got).lit != hit:
                return "the answer names %r" % (got,)
            if I.to_str(w.response.content.v).lit != dict(rows)[hit]:
                return "the answer has %r" % (w.response.content.v,)
            if [(r["name"], r["value"]) for r in w.table.rows] != rows:
                return "reading changes the cache"
            if w.lru[-1:] != [hit]:
                return "what was read is not the most recently used"
            return None
        C.check(sc, ("peek",), judge, hit is not None, what)
    return C


def lru(ctx):
    """The order of use: from every order of up to three names, one call leads to the order it should."""
    rule = "the least recently used name is the first to go"
    notes = []
    for order in [()] + [x for n in (1, 2, 3) for x in itertools.permutations("abc", n)]:
        for verb, arg in [("pushMRU", x) for x in "abcd"] + [("popLRU", None), ("empty", None), ("~LRUMap", None)]:
            fn = ctx.p.fn(LRU + verb)
            done = []

            def run(I):
                w = I.hook
                mem = {"_mutex": Cell(Term("mutex")), "_lruList": Cell(linked.Linked()), "_lruMap": Cell(linked.Tree())}
                this = Cell(Obj(mem))
                f = ctx.p.fn(LRU + "pushMRU")
                for x in order:
                    I.call_fn(f, [Cell(Str(x))], this)
                r = I.call_fn(fn, [Cell(Str(arg))] if arg else [], this)
                want = list(order)
                if verb == "pushMRU":
                    want = [x for x in want if x != arg] + [arg]
                elif verb == "popLRU":
                    first = want.pop(0) if want else None
                    got = r.v
                    if not isinstance(got, CPair) or (I.to_str(got.one().v).lit, I.truth(got.second.v)) != (first or "", first is not None):
                        return "gives %r" % (got and got.key(),)
                elif verb == "empty":
                    if I.truth(r.v) != (not order):
                        return "says the wrong thing"
                else:
                    want = []
                    if any(not h.freed for h in w.objects):
                        return "leaves an entry behind"
                    return None
                # what comes out from here on is what should
                pop = ctx.p.fn(LRU + "popLRU")
                for x in want + [None, "+d", "+a", "d", "a", None]:
                    if x and x[0] == "+":       # one that was taken out can be used again
                        I.call_fn(f, [Cell(Str(x[1:]))], this)
                        continue
                    got = I.call_fn(pop, [], this).v
                    if not isinstance(got, CPair) or (I.to_str(got.one().v).lit, I.truth(got.second.v)) != (x or "", x is not None):
                        return "leaves %r to go next, not %r" % (got and got.key(), x)
                if any(not h.freed for h in w.objects):
                    return "leaves an entry behind"
                return None

            def guarded(I):
                try:
                    return run(I)
                except linked.Bad as b:
                    return str(b)
            for I, w, r in paths(ctx.p, lambda: linked.HeapWorld((LRU,)), guarded, 200, notes):
                ctx.states += I.steps
                ctx.fns.update(I.functions)
                if r[0] == "give":
                    notes.append("%s: %s (line %d)" % (verb, r[1], I.line))
                    continue
                if r[0] == "throw":
                    r = ("end", "throws %s" % r[1].typ)
                if r[1]:
                    ctx.bad(rule, LRU + verb, verb + "|" + re.sub(r"'.*", "", r[1]), "%s:%s" % (fn["file"], fn["l"]), "%s%s with %s in use order %s" % (verb, "(%s)" % arg if arg else "", "/".join(order) or "nothing", r[1]))
                ctx.ok(rule, "%s(%s) after %s" % (verb, arg or "", "/".join(order) or "nothing"))
    ctx.need(rule, 0 if notes else 20)
    return notes


@prop("C60")
def c60(ctx):
    C = cache(ctx)
    C.notes += lru(ctx)
    ctx.need(C.rule, 0 if C.notes else 20)
    for n in list(dict.fromkeys(C.notes))[:12]:
        ctx.undecided.append(n)


PD = "BedrockDBCommand::"


class QueryWorld(World):
    CLS, FILES = PD, ("plugins/DB.cpp", "plugins/DB.h")

    def make(self):
        self.stmts = {}           # prepared statement: [read only, times finalized]
        self.ran = []             # (what, text, parameters)
        self.noop = None
        return None

    def fields(self):
        self.response = Req("", {}, Sealed)
        self.response.content.v = Str()
        return {"response": Cell(self.response), "query": Cell(Str(self.sc["text"])), "params": Cell(Term("params")), "name": Cell(Str("DB"))}

    def empty(self, I, s):
        return None

    def call(self, I, e, q, fr):
        self.I = I
        if q == "BedrockPlugin_DB::parseSQLite3Args":
            return Cell({})
        if q == "BedrockPlugin_DB::generateErrorContextMessage":
            return Cell(Str(Term("context")))
        if q == "SREMatch":
            return Cell(int(".schema" in self.sc["text"] and I.choose(("match", I.to_str(I.ev(e["a"][0], fr)).lit))))
        if q == "SQLite::getPreparedStatements":
            text = I.to_str(I.ev(e["a"][0], fr))
            r = I.choose(None, (0, 1))
            flags = self.sc["stmts"] if not r else self.sc["stmts"][:-1]
            l = I.lv(e["a"][1], fr)
            if text.lit is None or text.lit != self.sc["text"] or not isinstance(l.v, CList):
                raise Give("what is prepared is not the query")
            for i, f in enumerate(flags):
                t = Term("stmt", len(self.stmts))
                self.stmts[t] = [f, 0]
                l.v.items.append(Cell(t))
            if r:
                self.failed.append(("prepare", "fails", I.line, None))
            return Cell(r)
        if q in ("sqlite3_stmt_readonly", "sqlite3_finalize"):
            t = I.ev(e["a"][0], fr)
            if t not in self.stmts:
                raise Give("a statement that was not prepared here")
            if q == "sqlite3_finalize":
                self.stmts[t][1] += 1
                return Cell(0)
            if self.stmts[t][1]:
                self.ran.append(("used after it was released", "", None))
            return Cell(int(self.stmts[t][0]))
        if q == "SQLite::read" or q in ("SQLite::write", "SQLite::writeIdempotent", "SQLite::writeUnmodified"):
            a = [x for x in e.get("a", ()) if x.get("k") != "defarg"]
            spec = q == "SQLite::read" and any("qrf_spec" in str(x["t"]) for x in (I.p.fns.get(e.get("f")) or {"p": ()})["p"])
            vs = [I.ev(x, fr) for x in a[:2]]
            self.ran.append((q, I.to_str(vs[0]).lit, freeze(vs[1]) if len(vs) > 1 else None))
            bad = self.fails("read" if q == "SQLite::read" else "write", None) != "ok"
            if q == "SQLite::read" and len(a) > 2 and not spec:
                I.lv(a[2], fr).v = CRes()
            return Cell(int(bad) if spec else int(not bad))
        if q == "SQLite::getUpdateNoopMode":
            if self.noop is None:
                self.noop = I.choose("noop", (False, True))
            return Cell(int(self.noop))
        return World.call(self, I, e, q, fr)


def query(ctx):
    C = Checker(ctx, "read on peek, written only by process", QueryWorld)
    R, W = True, False

    def peek(text, stmts, fmt=None, **k):
        sc = dict(verb="Query", rows=[], text=text, stmts=stmts, req=dict({"Format": fmt, "query": text}, **k), closed=True)
        ok = text.rstrip().endswith(";") and 0 < len(text) <= MAXQ

        def judge(w, I):
            if any(r[0].startswith("SQLite::write") for r in w.ran):
                return "something is written on the read path"
            if any(r[0] == "used after it was released" for r in w.ran):
                return "a statement is used after it was released"
            reads = [r for r in w.ran if r[0] == "SQLite::read"]
            if not ok:
                return None
            if not all(stmts):
                if reads:
                    return "a query that may write is run on the read path"
                if w.returned:
                    return "a query that may write is said to be done by peek"
                return None
            want = text if ".schema" not in text else None
            if len(reads) != 1 or want is not None and reads[0][1] != want or reads[0][2] != Term("params"):
                return "the query is run as %s" % (reads,)
            if not w.returned:
                return "a query that only reads is left to process"
            return None

        def after(w, I, kind):
            if kind in ("end", "throw") and any(n != 1 for _, n in w.stmts.values()):
                return "a prepared statement is released %s times" % [n for _, n in w.stmts.values() if n != 1][0]
            if kind == "throw" and any(r[0].startswith("SQLite::write") for r in w.ran):
                return "something is written by a query that is refused"
            return None
        C.check(sc, ("peek",), judge, bool(ok), "%s, statements %s%s" % (text[:30], "/".join("reads" if s else "may write" for s in stmts) or "none", ", as json" if fmt else ""), after=after)
    MAXQ = 1024 * 1024
    for fmt in (None, "json"):
        for stmts in ((), (R,), (W,), (R, R), (R, W), (W, R), (W, W), (R, R, R), (R, W, R), (W, R, R), (R, R, W)):
            peek("SELECT a FROM b;", list(stmts), fmt)
        for t in ("", "SELECT 1", "UPDATE t SET a=1", "SELECT 1; UPDATE t SET a=1"):
            peek(t, [R], fmt)
    peek("SELECT 1;", [R, W], None, SuppressResult="true")
    peek("SELECT 1;", [R], None, SuppressResult="true", ReadDBFlags="-json", SQLiteArgs="-csv")

    def process(text, allowed, nowhere=None):
        sc = dict(verb="Query", rows=[], text=text, stmts=[W], req={"nowhere": nowhere, "query": text}, closed=True)

        def judge(w, I):
            if w.noop is None:
                return "what a mocked request may write is not asked for"
            writes = [r for r in w.ran if r[0].startswith("SQLite::write")]
            if w.noop:
                return "a mocked request writes" if w.ran else None
            if not allowed:
                return "it is not refused"
            if len(w.ran) != 1 or len(writes) != 1 or writes[0][1:] != (text, Term("params")):
                return "the query is run as %s" % (w.ran,)
            if text.upper().startswith("INSERT ") and "lastInsertRowID" not in w.response.cells:
                return "the answer does not name the row"
            return None

        def after(w, I, kind):
            return "it is run although it is refused" if kind == "throw" and w.ran and not allowed else None
        C.check(sc, ("process",), judge, True if allowed else None, text[:40] + (", nowhere %s" % nowhere if nowhere else ""), after=after)
    for v in ("UPDATE t SET a=1", "update t set a=1", "DELETE FROM t", "Delete from t", "UPDATE t SET somewhere=1"):
        for nw in (None, "true", "false"):
            process(v + ";", nw == "true", nw)
            process(v + " WHERE b=2;", True, nw)
            process(v + " where b=2;", True, nw)
    for v in ("INSERT INTO t VALUES(1);", "insert into t values(1);", "REPLACE INTO t VALUES(1);", "CREATE TABLE x(y);", "DROP TABLE x;", "SELECT 1; DELETE FROM t WHERE a;"):
        process(v, True)
    return C


@prop("C61")
def c61(ctx):
    C = query(ctx)
    ctx.need(C.rule, 0 if C.notes else 20)
    for n in list(dict.fromkeys(C.notes))[:12]:
        ctx.undecided.append(n)
