"""Compressed values and journal entries come back as they were; every buffer and context is given back once."""
from . import prop
from ..lib import *
from ..absint import *
from .. import linked
from ..norm import nodes
from .https import HWorld, Thing, run
import itertools

PC = "BedrockPlugin_Compression::"
UNKNOWN, ERROR = (1 << 64) - 1, (1 << 64) - 2
FAIL = (1 << 64) - 70
LEN, BOUND, OUT, PLAIN = 1000, 1200, 300, 1000


class ZWorld(HWorld):
    """What SQLite and zstd give: the scenario says which calls fail."""

    def __init__(self, sc):
        HWorld.__init__(self, (PC,))
        self.sc = sc
        self.results, self.params, self.runs = [], {}, []
        self.dicts = {k: Thing(k) for k in ("C", "D")}
        d = Thing("dictionaries", {"compression": self.dicts["C"], "decompression": self.dicts["D"]})
        self.map = linked.Tree([(3, d)] if sc.get("known", 1) else [])
        self.text = Thing("text", {}, {"empty": lambda I: int(not sc["len"]), "size": lambda I: sc["len"], "length": lambda I: sc["len"], "data": lambda I: self.src, "c_str": lambda I: self.src})
        self.src = Term("source")
        self.text.text = True

    def inline(self, I, g):
        return g["q"].startswith(PC) or g["q"] in ("sqliteCompress", "sqliteDecompress")

    def var(self, I, e, fr):
        if e.get("q") == PC + "_dictionaries":
            return Cell(self.map)
        return None

    def construct(self, I, e, fr):
        if is_str_type(e.get("t", "")):
            a = [x for x in e.get("a", ()) or () if isinstance(x, dict) and x.get("k") != "defarg"]
            if len(a) == 1 or len(a) == 2:
                v = I.ev(a[0], fr)
                if len(a) == 2 and isinstance(v, int):
                    return Cell(self.buffer(v))
                if isinstance(v, Thing):
                    return Cell(v)
        return HWorld.construct(self, I, e, fr)

    def buffer(self, n):
        b = Thing("buffer")
        b.cap = b.size = n
        b.done = None
        if n > (1 << 40):
            raise linked.Bad("it allocates %d bytes" % n)

        def resize(I, c):
            if not isinstance(c.v, int):
                raise Give("the size of the result")
            b.size = c.v
        b.m = {"data": lambda I: b, "resize": resize, "size": lambda I: b.size, "empty": lambda I: int(not b.size)}
        b.heap, b.text = False, True
        return b

    def made(self, typ):
        t = Thing(typ)
        t.heap = True
        self.objects.append(t)
        return t

    def live(self, t):
        if not isinstance(t, Thing):
            raise linked.Bad("a context or buffer that was not made is used")
        if t.freed:
            raise linked.Bad("a context or buffer is used after it was given back")
        return t

    def free(self, t, typ):
        if t == 0:
            return Cell(0)
        if not isinstance(t, Thing) or t.typ != typ or t.freed:
            raise linked.Bad("a context or buffer is given back twice" if isinstance(t, Thing) and t.freed else "what is given back is not a %s" % typ)
        t.freed = True
        return Cell(0)

    def special(self, I, e, q, n, a, fr):
        sc = self.sc
        if not q.startswith(("sqlite3_", "ZSTD_")):
            return None
        v = [I.ev(x, fr) for x in a]
        arg = lambda x: x.args[1] if isinstance(x, Term) and x.fn == "[]" else None
        if q == "sqlite3_value_type":
            return Cell(5 if sc["null"][arg(v[0])] else 4 if arg(v[0]) == 0 else 1)
        if q in ("sqlite3_value_int64", "sqlite3_value_int"):
            return Cell(sc["id"])
        if q in ("sqlite3_value_blob", "sqlite3_value_text"):
            return Cell(self.src if sc["len"] else 0)
        if q in ("sqlite3_value_bytes",):
            return Cell(sc["len"])
        if q.startswith("sqlite3_result_"):
            k = q[len("sqlite3_result_"):]
            self.results.append((k.replace("64", ""),) + tuple(v[1:]))
            if k.startswith(("blob", "text")):
                b = self.live(v[1])
                how = v[3] if len(v) > 3 else None
                if isinstance(how, Term) and how.fn == "fn" and "sqlite3_free" in str(how.args[0]) and b.heap:
                    b.freed = b.handed = True
                elif how in (UNKNOWN, -1) or isinstance(how, Term) and "TRANSIENT" in repr(how):
                    pass
                else:
                    raise linked.Bad("nobody gives the buffer of the result back")
            return Cell(0)
        if q in ("sqlite3_malloc64", "sqlite3_malloc"):
            if sc["fail"] == "memory":
                return Cell(0)
            b = self.made("buffer")
            b.cap = b.size = v[0]
            b.done = None
            return Cell(b)
        if q == "sqlite3_free":
            return self.free(v[0], "buffer")
        if q in ("ZSTD_createCCtx", "ZSTD_createDCtx"):
            return Cell(0 if sc["fail"] == "context" else self.made("context"))
        if q in ("ZSTD_freeCCtx", "ZSTD_freeDCtx"):
            return self.free(v[0], "context")
        if q == "ZSTD_CCtx_setParameter":
            self.live(v[0])
            self.params[v[1]] = v[2]
            return Cell(0)
        if q == "ZSTD_compressBound":
            return Cell(BOUND if v[0] == sc["len"] else 1)
        if q in ("ZSTD_compress_usingCDict", "ZSTD_decompress_usingDDict"):
            self.live(v[0])
            b = self.live(v[1])
            if not isinstance(v[2], int) or not isinstance(b.cap, int):
                raise Give("the size of the buffer")
            if v[2] > b.cap:
                raise linked.Bad("more is written than the buffer holds")
            if v[3] != self.src or v[4] != sc["len"]:
                raise linked.Bad("what is processed is not the argument")
            want = 0 if q.startswith("ZSTD_dec") and not sc.get("fid", 3) else self.dicts["C" if q == "ZSTD_compress_usingCDict" else "D"]
            if v[5] is not want and v[5] != want:
                raise linked.Bad("the dictionary is not the one that was asked for")
            need = BOUND if q == "ZSTD_compress_usingCDict" else PLAIN
            if v[2] < need:
                raise linked.Bad("the buffer is too small")
            b.done = OUT if q == "ZSTD_compress_usingCDict" else PLAIN - sc.get("short", 0)
            self.runs.append((q, dict(self.params)))
            return Cell(FAIL if sc["fail"] == "zstd" else b.done)
        if q == "ZSTD_isError":
            return Cell(int(isinstance(v[0], int) and v[0] >= FAIL))
        if q in ("ZSTD_isFrame",):
            return Cell(int(sc["frame"]))
        if q in ("ZSTD_getDictID_fromFrame",):
            return Cell(sc["fid"])
        if q == "ZSTD_getFrameContentSize":
            return Cell({"unknown": UNKNOWN, "broken": ERROR}.get(sc["fail"], PLAIN))
        if q == "ZSTD_getErrorName":
            return Cell(Str("error"))
        return None


def judged(w, out, kind, ok, sc, same):
    """What must hold at the end of every path: `ok` whether a result is due, `same` whether the argument itself is the result."""
    left = [o for o in w.objects if isinstance(o, Thing) and getattr(o, "heap", False) and not o.freed]
    if left:
        return "a %s is never given back" % left[0].typ
    if kind == "sql":
        if len(w.results) != 1:
            return "there are %d results" % len(w.results)
        r = w.results[0]
        if same == "null":
            return None if r[0] in ("null", "value") else "NULL does not stay NULL"
        if same:
            return None if r[0] == "value" else "the argument is not returned as it is"
        if not ok:
            return None if r[0].startswith("error") else "a failure is not reported"
        if r[0] not in ("blob", "text"):
            return "it fails although nothing failed"
        if (r[0] == "blob") != (sc["what"] == "compress"):
            return "the result is a %s" % r[0]
        b, n = r[1], r[2]
    else:
        if same or not ok and out is w.text:
            return None if out is w.text else "the argument is not returned as it is"
        if not ok:
            return "something else is returned after a failure"
        if not isinstance(out, Thing) or out.typ != "buffer":
            return "the argument is returned instead of the result" if out is w.text else "the result is something else"
        b, n = out, out.size
    if len(w.runs) != 1 or b.done is None:
        return "the result is not what was made"
    if n != b.done:
        return "the result has %s bytes instead of %s" % (n, b.done)
    if sc["what"] == "compress" and w.runs[0][1].get(Explorer.ENUMS.get("ZSTD_c_dictIDFlag", Term("ZSTD_c_dictIDFlag"))) != 1:
        return "the result does not name its dictionary"
    return None


def functions(ctx, notes):
    p = ctx.p
    r1, r2 = "what is compressed names its dictionary; everything else stays as it is", "what was compressed comes back; everything else stays as it is"
    params = {}
    for kind, null0, null1, id_, known, n, fail in itertools.product(("sql", "text"), (0, 1), (0, 1), (0, 3), (0, 1), (0, LEN), (None, "context", "memory", "zstd")):
        if kind == "text" and (null0 or null1 or fail == "memory"):
            continue
        sc = dict(what="compress", null=(null0, null1), id=id_, known=known, len=n, fail=fail)
        same = "null" if null0 else null1 or not id_ or None
        what = "%s%s, dictionary %s%s, %d bytes%s" % ("SQL" if kind == "sql" else "text", ", NULL" if null0 else "", "NULL" if null1 else id_, "" if known else " unknown", n, ", %s fails" % fail if fail else "")

        def go(I, w):
            try:
                if kind == "sql":
                    out = I.call_fn(p.fn("sqliteCompress"), [Cell(Term("ctx")), Cell(2), Cell(Term("argv"))]).v
                else:
                    out = I.call_fn(p.fn(PC + "compress"), [Cell(w.text), Cell(id_)]).v
            except Throw as t:
                if kind == "text" and t.typ == "abort" and not same and (n or not known):
                    return None if not known or fail else "the server is aborted"
                raise
            if not same and not n and known == 0 and kind == "sql":
                return None if len(w.results) == 1 and (w.results[0][0] == "value" or w.results[0][0].startswith("error")) else "neither the argument nor an error"
            msg = judged(w, out, kind, known and not fail, sc, same or (not n or None))
            if not msg and w.runs:
                params[kind] = w.runs[0][1]
            return msg
        run(ctx, r1, "sqliteCompress" if kind == "sql" else PC + "compress", what, lambda: ZWorld(sc), go, notes)
    if len(params) == 2:
        ctx.ok(r1, "both ways have the same parameters: %s" % sorted(map(str, params["sql"].items())))
        if params["sql"] != params["text"]:
            f = p.fn(PC + "compress")
            ctx.bad(r1, f["q"], "parameters", "%s:%s" % (f["file"], f["l"]), "the journal is compressed with other parameters than values are: %s, %s" % (params["sql"], params["text"]))
    for kind, null0, frame, fid, known, n, short, fail in itertools.product(("sql", "text"), (0, 1), (0, 1), (0, 3), (0, 1), (0, LEN), (0, 10), (None, "context", "memory", "zstd", "unknown", "broken")):
        if kind == "text" and (null0 or fail == "memory"):
            continue
        sc = dict(what="decompress", null=(null0, 0), frame=frame, fid=fid, known=known, len=n, fail=fail, short=short, id=0)
        same = "null" if null0 else not n or not frame or None
        what = "%s%s, %s, dictionary %s%s, %d bytes%s" % ("SQL" if kind == "sql" else "text", ", NULL" if null0 else "", "compressed" if frame else "not compressed", fid, "" if known else " unknown", n, ", %s fails" % fail if fail else "")

        def back(I, w):
            if kind == "sql":
                out = I.call_fn(p.fn("sqliteDecompress"), [Cell(Term("ctx")), Cell(1), Cell(Term("argv"))]).v
            else:
                out = I.call_fn(p.fn(PC + "decompress"), [Cell(w.text)]).v
            return judged(w, out, kind, (known or not fid) and not fail, sc, same)
        run(ctx, r2, "sqliteDecompress" if kind == "sql" else PC + "decompress", what, lambda: ZWorld(sc), back, notes)
    ctx.need(r1, 0 if notes else 50)
    ctx.need(r2, 0 if notes else 50)


class LoadWorld(HWorld):
    def __init__(self, rows, fails):
        HWorld.__init__(self, (PC,))
        self.rows, self.fails = rows, fails
        self.map = linked.Tree([])

    def inline(self, I, g):
        return g["q"].startswith(PC)

    def var(self, I, e, fr):
        return Cell(self.map) if e.get("q") == PC + "_dictionaries" else None

    def construct(self, I, e, fr):
        t = e.get("c") or e.get("t", "")
        if "SQResult" in t:
            return Cell(Thing("result", {}, {"size": lambda I: 0}))
        if "ZDictionaries" in t:
            a = [I.ev(x, fr) for x in e.get("a", ())]
            if len(a) == 1:
                return Cell(a[0])
            return Cell(Thing("dictionaries", {"compression": a[0] if a else 0, "decompression": a[1] if len(a) > 1 else 0}))
        return HWorld.construct(self, I, e, fr)

    def special(self, I, e, q, n, a, fr):
        if q == "SQLite::read":
            if self.fails == "read":
                return Cell(0)
            row = lambda r: Thing("row", {}, {"operator[]": lambda I, c: Str(r[c.v.lit if isinstance(c.v, Str) else ("dictionaryID", "dictionary")[c.v]])})
            rs = [row(r) for r in self.rows]
            I.lv(a[1], fr).v = Thing("result", {}, {"size": lambda I: len(rs), "empty": lambda I: int(not rs), "operator[]": lambda I, c: rs[c.v]})
            return Cell(1)
        if q in ("ZSTD_createCDict", "ZSTD_createDDict"):
            if self.fails == q[11]:
                return Cell(0)
            d = Thing(q[11])
            d.of = (I.ev(a[0], fr), I.ev(a[1], fr))
            return Cell(d)
        if q in ("ZSTD_freeCDict", "ZSTD_freeDDict"):
            I.ev(a[0], fr)
            return Cell(0)
        if q.startswith("SQResultRow") or "operator[]" in q and "obj" in e:
            c = I.lv(e["obj"], fr)
            if isinstance(c.v, Thing) and "operator[]" in c.v.m:
                return Cell(c.v.m["operator[]"](I, I.lv(a[0], fr)))
        return None


def loading(ctx, notes):
    p = ctx.p
    rule = "a dictionary is what the table has under its id"
    rows = [{"dictionaryID": "3", "dictionary": "three"}, {"dictionaryID": "7", "dictionary": "seven!"}]
    for rs, fails in ((rows, None), (rows[:1], None), ([], None), (rows, "read"), (rows, "C"), (rows, "D"), ([rows[0], {"dictionaryID": "9", "dictionary": ""}], "empty")):
        def go(I, w):
            try:
                I.call_fn(p.fn(PC + "loadDictionariesFromDB"), [Cell(Thing("SQLite"))])
            except Throw as t:
                if fails in ("C", "D", "empty") and t.typ != "abort":
                    return None
                raise
            if fails == "read":
                return "there are dictionaries that were not read" if w.map.nodes else None
            if fails in ("C", "D"):
                return "goes on without a dictionary"
            have = {}
            for nd in w.map.nodes:
                d = nd.c.v
                if not isinstance(d, Thing):
                    raise Give("a dictionary")
                if not isinstance(d.d["compression"].v, Thing) or not isinstance(d.d["decompression"].v, Thing):
                    return "a dictionary was not made"
                have[nd.k] = (d.d["compression"].v.typ, d.d["compression"].v.of, d.d["decompression"].v.typ, d.d["decompression"].v.of)
            want = {int(r["dictionaryID"]): ("C", (Str(r["dictionary"]), len(r["dictionary"])), "D", (Str(r["dictionary"]), len(r["dictionary"]))) for r in rs if r["dictionary"]}
            return None if have == want else "the dictionaries are not the ones of the table"
        run(ctx, rule, PC + "loadDictionariesFromDB", "%d rows%s" % (len(rs), ", %s" % fails if fails else ""), lambda: LoadWorld(rs, fails), go, notes)
    # rows of the table are written once
    for f in p.fns.values():
        for e in nodes(f["body"]) if f.get("body") else ():
            if e.get("k") == "str" and re.search(r"\b(UPDATE|DELETE\s+FROM|REPLACE\s+INTO|INSERT\s+OR\s+REPLACE\s+INTO|DROP\s+TABLE)\s+(\w+\s+)*zstdDictionaries", e["v"], re.I):
                ctx.bad(rule, f["q"], "rewritten", "%s:%s" % (f["file"], e.get("l") or f["l"]), "a dictionary is changed or removed: %s" % e["v"][:80])
    # the functions that SQL calls
    f = p.fn(PC + "registerSQLite")
    seen = {}
    for e in fn_exprs(f):
        if e.get("k") == "call" and e.get("q", "").startswith("sqlite3_create_function"):
            nm, k, fl = [strip(x) for x in e["a"][1:4]]
            fn = next((strip(x).get("q") for x in e["a"][4:] if strip(x).get("k") == "fref"), None)
            if nm.get("k") == "str":
                seen[nm["v"]] = (k.get("v"), fn)
    want = {"compress": (2, "sqliteCompress"), "decompress": (1, "sqliteDecompress")}
    for nm in want:
        if nm not in seen:
            notes.append("the registration of %s()" % nm)
        elif (int(seen[nm][0]) if str(seen[nm][0]).isdigit() else None, seen[nm][1]) != want[nm]:
            ctx.bad(rule, f["q"], nm, "%s:%s" % (f["file"], f["l"]), "%s() in SQL is %s with %s arguments" % (nm, seen[nm][1], seen[nm][0]))
        else:
            ctx.ok(rule, "%s() is %s" % (nm, seen[nm][1]))
    ctx.need(rule, 0 if notes else 8)


def journal(ctx, notes):
    """The hash is of the plain text, everything that is kept or sent is the same bytes, and whoever runs it decompresses it first."""
    p = ctx.p
    rule = "the journal and the peers get the same bytes, hashed before and run after they are decompressed"
    f = p.fn("SQLite::prepare")
    g = ctx.graph(f)
    todo, seen, saw = [(g.nodes[0], frozenset())], set(), set()
    while todo:
        n, st = todo.pop()
        if (n.i, st) in seen:
            continue
        seen.add((n.i, st))
        ctx.states += 1
        e = n.e if isinstance(n.e, dict) else {}
        if n.k == "exit" or n.k == "excexit":
            continue
        if n.k in ("call", "icall", "assign"):
            q = e.get("q", "")
            where = "%s:%s" % (f["file"], n.l)
            if q == "SHashSHA1" and any(x.get("n") == "_uncommittedQuery" for x in nodes(e)):
                saw.add("hash")
                if "z" in st:
                    ctx.bad(rule, f["q"], "hash", where, "the hash is that of the compressed text, which differs between nodes")
                st |= {"h"}
            if q == PC + "compress":
                saw.add("compress")
                if "z" in st:
                    ctx.bad(rule, f["q"], "twice", where, "the text is compressed twice")
                if "s" in st or "j" in st:
                    ctx.bad(rule, f["q"], "differ", where, "the text is compressed after it was recorded: the journal and the peers get different bytes")
                st |= {"z"}
            if q == "SQLite::SharedData::prepareTransactionInfo" and any(x.get("n") == "_uncommittedQuery" for x in nodes(e)):
                saw.add("shared")
                st |= {"s"}
            if q.endswith("Parameter::blob") and any(x.get("n") == "_uncommittedQuery" for x in nodes(e)):
                saw.add("journal")
                st |= {"j"}
        todo += [(m, st) for m, _ in n.succ]
    for x in ("hash", "compress", "shared", "journal"):
        if x in saw:
            ctx.ok(rule, "SQLite::prepare: %s" % x)
        else:
            notes.append("SQLite::prepare: %s not found" % x)
    k = 0
    for c in p.fns.values():
        if not c["q"].startswith("SQLiteNode::"):
            continue
        for e in nodes(c["body"]) if c.get("body") else ():
            if e.get("k") == "call" and e.get("q") == "SQLite::writeUnmodified":
                k += 1
                if made_by(c, e["a"][0], PC + "decompress"):
                    ctx.ok(rule, "%s: line %s" % (c["q"], e.get("l")))
                else:
                    ctx.bad(rule, c["q"], "runs", "%s:%s" % (c["file"], e.get("l")), "what a peer sent is run without being decompressed")
    ctx.require(k >= 2, "the places that run what a peer sent: %d" % k)


def made_by(f, e, q, d=0):
    """Whether the value of e comes from a call of q, directly or through local variables."""
    for x in nodes(e):
        if x.get("k") == "call" and x.get("q") == q:
            return True
    if d > 4:
        return False
    ids = {x["id"] for x in nodes(e) if x.get("k") == "var" and x.get("vk") == "local"}
    for s in nodes(f["body"]):
        if s.get("k") == "decl":
            if any(v["id"] in ids and isinstance(v.get("init"), dict) and made_by(f, v["init"], q, d + 1) for v in s["v"]):
                return True
        elif s.get("k") == "call" and s.get("op") == "=" and isinstance(s.get("obj"), dict) and strip(s["obj"]).get("id") in ids and s.get("a"):
            if made_by(f, s["a"][0], q, d + 1):
                return True
    return False


@prop("C63")
def c63(ctx):
    notes = []
    for part in (functions, loading, journal):
        mine = []
        part(ctx, mine)
        notes += mine
    for n in sorted(set(notes))[:20]:
        ctx.undecided.append(n)
