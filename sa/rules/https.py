"""Outgoing HTTPS requests: every one a command starts ends with a result, once; waiting for them never holds a transaction."""
from . import prop
from ..lib import *
from ..absint import *
from .. import linked
import itertools

HM, BC = "SStandaloneHTTPSManager::", "BedrockCommand::"
NOW = 10 ** 12
SEC = 1000000
CODES = {"HTTP/1.1 200 OK": 200, "HTTP/1.1 202 Accepted": 202, "HTTP/1.1 204 No Content": 204, "HTTP/1.1 404 Not Found": 404, "HTTP/1.1 503 Busy": 503}


class Thing(linked.Heap):
    """An object with given fields and methods."""

    def __init__(self, typ, d=None, m=None):
        linked.Heap.__init__(self, typ)
        self.d = {k: Cell(v) for k, v in (d or {}).items()}
        self.m = m or {}

    def clone(self):
        t = Thing(self.typ, {}, self.m)
        t.d = {k: Cell(thaw_copy(c.v)) for k, c in self.d.items()}
        return t


def data(line="", headers=(), content="", m=None):
    h = CMap()
    h.d = {k: Cell(Str(v)) for k, v in dict(headers).items()}
    return Thing("SData", {"methodLine": Str(line), "nameValueMap": h, "content": Str(content)}, m)


def code_of(x):
    """A number that C reads at the start of a text."""
    m = re.match(r"\s*([+-]?\d+)", x)
    return int(m.group(1)) if m else 0


class HWorld(linked.HeapWorld):
    def __init__(self, classes):
        linked.HeapWorld.__init__(self, classes)
        self.log = []
        self.now = NOW

    def transaction(self, **k):
        d = dict(s=0, created=1, finished=0, timeoutAt=0, response=0, requestID=Str("id"), scheduledStart=0, startFunc=0, fullRequest=data(), fullResponse=data())
        d.update(k)
        t = Thing("Transaction", d)
        t.d["manager"] = Cell(Thing("Manager"))
        self.objects.append(t)
        return t

    def construct(self, I, e, fr):
        c = e.get("c") or ""
        a = [x for x in e.get("a", ()) or () if isinstance(x, dict) and x.get("k") != "defarg"]
        if c == "SData":
            if not a:
                return Cell(data())
            v = I.ev(a[0], fr)
            return Cell(v.clone() if isinstance(v, Thing) else data(v.lit) if isinstance(v, Str) and v.lit is not None else v)
        return linked.HeapWorld.construct(self, I, e, fr)

    def call(self, I, e, q, fr):
        n = q.split("::")[-1]
        a = [x for x in e.get("a", ()) if isinstance(x, dict) and x.get("k") != "defarg"]
        if q == "STimeNow":
            return Cell(self.now)
        if q in ("atoi", "std::atoi", "atol", "strtol") and a:
            v = I.ev(a[0], fr)
            if isinstance(v, Str) and v.lit is not None:
                return Cell(code_of(v.lit))
            if isinstance(v, Term) and v.fn == "+" and isinstance(v.args[0], Str) and v.args[0].lit is not None and isinstance(v.args[1], int):
                return Cell(code_of(v.args[0].lit[v.args[1]:]))
        if q == "std::make_unique" and "Transaction" in e.get("t", ""):
            xs = [I.ev(x, fr) for x in a]
            return Cell(self.transaction(requestID=xs[1] if len(xs) > 1 else Str("id")))
        if isinstance(e.get("obj"), dict) and not e.get("v"):
            o = strip(e["obj"])
            if q.startswith(("std::unique_ptr<", "std::shared_ptr<", "std::__shared_ptr")):
                c = I.lv(o, fr)
                if n in ("get", "operator->", "operator*", "operator bool"):
                    return c
                if n == "operator=" and a:
                    c.v = I.ev(a[0], fr)
                    return c
            if "atomic" in q and n in ("load", "store", "operator=") or q.startswith("std::atomic<") and "::operator " in q:
                c = I.lv(o, fr)
                if n in ("store", "operator="):
                    c.v = I.ev(a[0], fr)
                return c
        if isinstance(e.get("obj"), dict) and strip(e["obj"]).get("k") in ("mem", "var", "un", "call", "this"):
            c = I.lv(e["obj"], fr)
            if isinstance(c.v, Thing):
                if c.v.freed:
                    raise linked.Bad("an object is used after it was deleted")
                if n in c.v.m:
                    r = c.v.m[n](I, *[I.lv(x, fr) for x in a])
                    return r if isinstance(r, Cell) else Cell(r if r is not None else 0)
                if n == "operator=" and isinstance(I.ev(a[0], fr), Thing):
                    c.v = I.ev(a[0], fr).clone()
                    return c
        r = self.special(I, e, q, n, a, fr)
        if r is not None:
            return r
        return linked.HeapWorld.call(self, I, e, q, fr)

    def special(self, I, e, q, n, a, fr):
        return None


# ------------------------------------------------------------------------------------------------ one transaction
class PollWorld(HWorld):
    def __init__(self, sc):
        HWorld.__init__(self, (HM,))
        self.sc = sc

    def inline(self, I, g):
        return g["q"].startswith(HM) and "Transaction::" not in g["q"]

    def scene(self):
        sc = self.sc
        self.eaten = []
        s = 0
        if sc["start"] != "none":
            buf = Thing("buffer", {}, {"consumeFront": lambda I, c: self.eaten.append(c.v)})
            s = Thing("Socket", {"recvBuffer": buf, "state": Explorer.ENUMS["STCPManager::Socket::CONNECTED"], "lastSendTime": NOW - sc["idle"], "s": 5},
                      {"sendBufferEmpty": lambda I: int(sc["sent"])})
            self.socket = s

        def parse(I, c):
            if sc["size"]:
                self.t.d["fullResponse"].v.d["methodLine"].v = Str(sc["line"])
                self.t.d["fullResponse"].v.d["content"].v = Str(sc["content"])
                if sc["length"]:
                    self.t.d["fullResponse"].v.d["nameValueMap"].v.d["Content-Length"] = Cell(Str("7"))
            return sc["size"]
        self.t = self.transaction(s=s, finished=7 if sc["start"] == "done" else 0, response=200 if sc["start"] == "done" else 0, timeoutAt=NOW + sc["left"], fullResponse=data(m={"deserialize": parse}))
        return self.t

    def special(self, I, e, q, n, a, fr):
        if q == "STCPManager::postPoll":
            self.log.append("poll")
            s = I.ev(a[1], fr)
            s.d["state"].v = Explorer.ENUMS["STCPManager::Socket::" + self.sc["state"]]
            return Cell(0)
        if q == "STCPManager::prePoll":
            self.log.append(("pre", I.ev(a[1], fr)))
            return Cell(0)
        if n == "_onRecv":
            t = I.ev(a[0], fr)
            if self.t.d["s"].v == 0 or t.d["s"].v.freed:
                raise linked.Bad("the response is handled after its socket is gone")
            self.log.append("recv")
            return I.call_fn(I.p.fn(HM + "_onRecv"), [I.lv(a[0], fr)], Cell(Term("manager")))
        return None


def polls():
    for start in ("none", "done"):
        yield dict(start=start, state="CONNECTED", size=0, line="", content="", length=0, idle=SEC, left=SEC, sent=1)
    base = dict(start="live", line="", content="", length=0)
    over = [(SEC, SEC), (301 * SEC, SEC), (SEC, -SEC), (301 * SEC, -SEC)]
    for state in ("CONNECTING", "CONNECTED", "SHUTTINGDOWN", "CLOSED"):
        for idle, left in over:
            for sent in (0, 1):
                yield dict(base, state=state, size=0, idle=idle, left=left, sent=sent)
            if state == "CONNECTING":
                continue
            for line in CODES:
                for content in ("", "x"):
                    for length in (0, 1):
                        yield dict(base, state=state, size=57, idle=idle, left=left, sent=1, line=line, content=content, length=length)
    for line in ("HTTP/1.1", "HTTP/1.1 ", "nothing here"):
        yield dict(base, state="CLOSED", size=57, idle=SEC, left=SEC, sent=1, line=line, content="", length=0)
        yield dict(base, state="CONNECTED", size=57, idle=SEC, left=SEC, sent=1, line=line, content="x", length=1)


def run(ctx, rule, fn, what, mk, go, notes):
    f = fn if isinstance(fn, dict) else ctx.p.fn(fn)
    fn = f["q"]

    def one(I):
        try:
            return go(I, I.hook)
        except linked.Bad as b:
            return str(b)
    for I, w, r in paths(ctx.p, mk, one, 300, notes):
        ctx.states += I.steps
        ctx.fns.update(I.functions)
        if r[0] == "give":
            notes.append("%s: %s (line %d)" % (fn, r[1], I.line))
            continue
        msg = "throws %s" % r[1].typ if r[0] == "throw" else r[1]
        if msg:
            ctx.bad(rule, fn, re.sub(r"\(.*|\d", "", msg), "%s:%s" % (f["file"], f["l"]), "%s (%s): %s" % (fn, what, msg))
    ctx.ok(rule, "%s: %s" % (fn, what))


def transactions(ctx, notes):
    p = ctx.p
    rule = "a transaction ends when its response is complete, its connection is gone or its time is over, and not before"
    for sc in polls():
        what = "not started" if sc["start"] == "none" else "has ended" if sc["start"] == "done" else "%s, %s%s%s" % (
            sc["state"].lower(), "no response" if not sc["size"] else "'%s'%s%s" % (sc["line"], ", length" if sc["length"] else "", ", content" if sc["content"] else ""),
            ", idle too long" if sc["idle"] > 300 * SEC else "", ", past its time" if sc["left"] < 0 else "")

        def poll(I, w):
            t = w.scene()
            I.call_fn(p.fn(HM + "postPoll"), [Cell(Term("fdm")), Cell(t), Cell(NPOS), Cell(300000)], Cell(Term("manager")))
            g = lambda n: t.d[n].v
            s = g("s")
            if sc["start"] != "live":
                same = g("finished") == (7 if sc["start"] == "done" else 0) and g("response") == (200 if sc["start"] == "done" else 0) and (s == 0) == (sc["start"] == "none")
                return "a transaction without activity is changed" if w.log or not same else None
            if w.log[:1] != ["poll"] or w.log.count("poll") != 1:
                return "the socket is not polled once"
            if not isinstance(g("response"), int) or not isinstance(g("finished"), int):
                raise Give("the result")
            if s != 0 and s.freed:
                return "the socket is deleted and still referred to"
            if s == 0 and not w.socket.freed:
                return "the socket is never closed"
            over = sc["state"] in ("SHUTTINGDOWN", "CLOSED") or sc["idle"] > 300 * SEC or sc["left"] < 0
            complete = sc["size"] and (CODES.get(sc["line"]) == 204 or sc["length"] or sc["state"] == "CLOSED")
            if complete or sc["size"] and over:
                if not g("finished") or g("finished") != NOW:
                    return "the transaction is not marked as finished"
                if not g("response"):
                    return "the transaction ends without a result"
                if s != 0:
                    return "the socket of a finished transaction is kept"
                if w.log.count("recv") > 1:
                    return "the response is handled twice"
                if sc["line"] in CODES and g("response") != CODES[sc["line"]]:
                    return "the result is %d" % g("response")
                if complete and w.eaten != [57]:
                    return "%s is taken from the buffer" % (w.eaten or "nothing")
                if complete and sc["content"] and "recv" not in w.log or "recv" not in w.log and CODES.get(sc["line"]) in (200, 202, 204):
                    return "the manager never gets the response"
                return None
            if over:
                return None if 500 <= g("response") < 600 and "recv" not in w.log else "the transaction does not end with an error"
            if g("response") or g("finished") or s != w.socket or w.log != ["poll"] or w.eaten:
                return "the transaction ends although its response is not complete"
            return None
        run(ctx, rule, HM + "postPoll", what, lambda: PollWorld(sc), poll, notes)
        if sc["start"] != "live" or not sc["size"]:
            def pre(I, w):
                t = w.scene()
                I.call_fn(p.fn(HM + "prePoll"), [Cell(Term("fdm")), Cell(t)], Cell(Term("manager")))
                if w.log != ([("pre", w.socket)] if sc["start"] == "live" else []):
                    return "is polled" if w.log else "is not polled"
                return None
            run(ctx, rule, HM + "prePoll", what, lambda: PollWorld(sc), pre, notes)
    ctx.need(rule, 0 if notes else 150)


# ------------------------------------------------------------------------------------------------ sending
class SendWorld(HWorld):
    def __init__(self, sc):
        HWorld.__init__(self, (HM,))
        self.sc = sc

    def inline(self, I, g):
        return g["q"].startswith(HM) and "Transaction::" not in g["q"]

    def new(self, I, e, fr):
        if "Socket" not in e.get("t", ""):
            return linked.HeapWorld.new(self, I, e, fr)
        x = strip(e.get("e")) or {}
        a = [I.ev(y, fr) for y in x.get("a", ()) if isinstance(y, dict) and y.get("k") != "defarg"]
        if self.sc["fails"]:
            raise Throw("SException", None, I.line)
        s = Thing("Socket", {}, {"send": lambda I, c, *_: self.log.append(("sent", self.last, c.v))})
        self.last = s
        self.log.append(("new", e["t"], s, a))
        return Cell(s)

    def special(self, I, e, q, n, a, fr):
        if q == "SParseURI":
            u = I.to_str(I.ev(a[0], fr)).lit
            if u is None:
                raise Give("an address")
            m = re.match(r"(?:https?://)?([a-z.:0-9]+)(/.*)?$", u)
            if not m:
                return Cell(0)
            I.lv(a[1], fr).v = Str(m.group(1))
            I.lv(a[2], fr).v = Str(m.group(2) or "/")
            return Cell(1)
        return None

    def var(self, I, e, fr):
        if e.get("q") == HM + "proxyAddressHTTPS":
            return Cell(Str(self.sc["proxy"]))
        return None


def sending(ctx, notes):
    p = ctx.p
    rule = "a request goes out once, to the host of its address, or ends with an error"
    for url, proxy, allow, fails in itertools.product(("https://a.com/x", "https://a.com:8443/x", "http://a.com:80/x", "http://a.com/x", "<bad>"), ("", "https://proxy.com:3128"), (0, 1), (0, 1)):
        sc = dict(proxy=proxy, fails=fails)
        what = "%s%s%s%s" % (url, ", proxy" if proxy else "", ", may use it" if allow else "", ", connecting fails" if fails else "")

        def send(I, w):
            wire = lambda d: Str(Term("wire", d.d["methodLine"].v, tuple(sorted((k, c.v) for k, c in d.d["nameValueMap"].v.d.items())), d.d["content"].v))
            req = data("POST /x HTTP/1.1", {"Connection": "close", "Host": "a.com"}, "body")
            req.m = {}
            orig = Thing.clone

            def serialize(of):
                of.m = {"serialize": lambda I: wire(of)}
                return of
            serialize(req)
            req.clone = lambda: serialize(orig(req))
            t = I.call_fn(p.fn(HM + "_httpsSend"), [Cell(Str(url)), Cell(req), Cell(allow)], Cell(Term("manager"))).v
            if not isinstance(t, Thing):
                raise Give("what is returned")
            g = lambda n: t.d[n].v
            sent = [x for x in w.log if x[0] == "sent"]
            if url == "<bad>" or fails:
                return None if not sent and g("s") == 0 and g("finished") and isinstance(g("response"), int) and g("response") >= 400 else "does not end with an error"
            host = url.split("/")[2]
            host = host if ":" in host else host + ":443"
            https = url.startswith("https")
            proxied = https and allow and proxy
            new = [x for x in w.log if x[0] == "new"]
            if len(new) != 1 or g("s") is not new[0][2] or g("s").freed:
                return "the transaction does not have the socket"
            typ, args = new[0][1], new[0][3]
            if ("Proxy" in typ) != bool(proxied):
                return "the proxy is %sused" % ("" if "Proxy" in typ else "not ")
            if proxied and (args[0] != Str("proxy.com:3128") or args[1] != Str(host)) or not proxied and (args[0] != Str(host) or args[1] != int(https)):
                return "the connection is to %s" % (args[:2],)
            want = data("POST /x HTTP/1.1", {"Host": "a.com"} if proxied else {"Connection": "close", "Host": "a.com"}, "body")
            if len(sent) != 1 or sent[0][1] is not g("s") or sent[0][2] != wire(want):
                return "the request is sent %d times" % len(sent) if len(sent) != 1 else "what is sent is not the request"
            if wire(g("fullRequest")) != wire(want):
                return "the recorded request is not what was sent"
            if g("response") or g("finished"):
                return "a request that was just sent already has a result"
            return None
        run(ctx, rule, HM + "_httpsSend", what, lambda: SendWorld(sc), send, notes)
    ctx.need(rule, 0 if notes else 30)


# ------------------------------------------------------------------------------------------------ waiting
class WaitWorld(HWorld):
    """Transactions of a command: `ends[i]` is when the manager gives transaction i a result (None: never)."""

    def __init__(self, sc):
        HWorld.__init__(self, (BC,))
        self.sc = sc
        self.polls = 0

    def inline(self, I, g):
        return g["q"] in (BC + "_waitForHTTPSRequests", BC + "areHttpsRequestsComplete", BC + "prePoll", BC + "postPoll", BC + "waitForHTTPSRequests") or g["q"].startswith(BC) and g["q"] not in (BC + "timeout",)

    def command(self):
        sc = self.sc
        self.ts = []
        for i, x in enumerate(sc["ts"]):
            t = self.transaction(response=x.get("response", 0), finished=5 if x.get("response") else 0, scheduledStart=NOW + x["at"] if x.get("at") is not None else 0, timeoutAt=x.get("timeoutAt", 0))
            t.i, t.x, t.begun = i, x, x.get("at") is None and not x.get("response")
            self.ts.append(t)
        lst = linked.Linked(self.ts)
        for t in self.ts:
            t.d["startFunc"].v = Term("startFunc", t.i)
        k = sc.get("from")
        self.cell = Cell(Thing("command", {"httpsRequests": lst, "_lastContiguousCompletedTransaction": lst.pos(k) if k is not None else linked.Pos(lst, None), "_timeout": NOW + sc["timeout"],
                                           "socket": Thing("client") if sc.get("client") else 0, "shouldAbort": int(sc.get("drops") == 0), "_inDBReadOperation": int(sc.get("read", 0)), "_inDBWriteOperation": int(sc.get("write", 0)),
                                           "_plugin": Thing("plugin", {"server": Thing("server", {}, {"isShuttingDown": lambda I: int(sc.get("down", 0))})}), "escalationTimeUS": 0}))
        return self.cell

    def start(self, t):
        if self.now < NOW + (t.x["at"] if t.x.get("at") is not None else 0):
            raise linked.Bad("a request is started before its time")
        if t.begun:
            raise linked.Bad("a request is started twice")
        t.begun = True
        self.log.append(("start", t.i, self.now))

    def special(self, I, e, q, n, a, fr):
        if q == BC + "timeout":
            return Cell(NOW + self.sc["timeout"])
        if "function<" in q and n == "operator()" or e.get("op") == "()":
            f = I.ev(e.get("fe") or e["obj"], fr)
            if isinstance(f, Term) and f.fn == "startFunc":
                t = I.ev(a[0], fr)
                if t.i != f.args[0]:
                    raise linked.Bad("the wrong request is started")
                self.start(t)
                return Cell(0)
            return None
        if "function<" in q and n == "operator bool":
            return Cell(1)
        if q == "S_poll":
            w = I.ev(a[1], fr)
            if not isinstance(w, int):
                raise Give("how long it waits")
            if w < 0 or w > SEC:
                raise linked.Bad("it waits for more than a second")
            if self.now + w > NOW + self.sc["timeout"] and self.now < NOW + self.sc["timeout"]:
                raise linked.Bad("it waits longer than the command may")
            for t in self.ts:
                if not t.begun and not t.d["response"].v and NOW + t.x["at"] < self.now + w:
                    raise linked.Bad("it waits although a request is to be started")
            self.log.append(("wait", self.now))
            self.now += w
            self.polls += 1
            if self.sc.get("drops") is not None and self.polls >= self.sc["drops"]:
                self.cell.v.d["shouldAbort"].v = 1
            if self.polls > 12:
                raise linked.Bad("it waits forever")
            return Cell(0)
        if q in (HM + "prePoll", HM + "postPoll"):
            t = I.ev(a[1], fr)
            self.log.append((n, t.i, self.now))
            if n == "prePoll":
                return Cell(0)
            if not t.d["timeoutAt"].v:
                raise linked.Bad("a request is waited for without an end")
            if "timeoutAt" not in t.x and t.d["timeoutAt"].v != NOW + self.sc["timeout"] or "timeoutAt" in t.x and t.d["timeoutAt"].v != t.x["timeoutAt"]:
                raise linked.Bad("the time a request has is not its own or the command's")
            limit = I.ev(a[3], fr) if len(a) > 3 else 300000
            if isinstance(limit, int) and (limit > 60000) != (not self.sc.get("down")):
                raise linked.Bad("idle connections are kept while the server shuts down" if self.sc.get("down") else "idle connections are given up early")
            if t.begun and not t.d["response"].v and t.x.get("ends") is not None and self.polls >= t.x["ends"]:
                t.d["response"].v, t.d["finished"].v = 200, self.now
            return Cell(0)
        if q.startswith("SQLite::"):
            return self.db(I, e, n, a, fr)
        if n == "getMethodName" or n == "isSet":
            return Cell(Str("m")) if n != "isSet" else Cell(1)
        return None

    def db(self, I, e, n, a, fr):
        if n == "insideTransaction":
            return Cell(int(self.sc["inside"]))
        if n == "getLastTransactionType":
            return Cell(Term("type"))
        if n == "rollback":
            self.log.append(("rollback",))
            return Cell(1)
        if n == "beginTransaction":
            self.log.append(("begin", I.ev(a[0], fr) if a else None))
            return Cell(int(self.sc.get("begins", 1)))
        return None


def T(**k):
    return k


def waits():
    D, L = T(response=200), T
    yield "none", [], {}
    yield "all have ended", [D, D], {}
    yield "one response", [T(ends=1)], {}
    yield "two responses, in order", [T(ends=1), T(ends=2)], {}
    yield "two responses, the second first", [T(ends=3), T(ends=1)], {}
    yield "three responses, the middle one first", [T(ends=2), T(ends=1), T(ends=3)], {}
    yield "one has ended", [D, T(ends=2)], {"from": 0}
    yield "two have ended, one in between not", [D, T(ends=2), D], {"from": 0}
    yield "the first two have ended", [D, D, T(ends=1)], {"from": 1}
    yield "more were added", [D, D, T(ends=1), T(ends=2)], {"from": 0}
    yield "one never ends", [T(ends=1), T()], {}
    yield "the first never ends", [T(), T(ends=1)], {}
    yield "no time is left", [T(), D, T()], {"timeout": -SEC}
    yield "the client leaves", [T(ends=1), T()], {"client": 1, "drops": 2, "timeout": 100 * SEC}
    yield "the client has left", [T(), D], {"client": 1, "drops": 0, "timeout": 100 * SEC}
    yield "a client", [T(ends=2), T(ends=1)], {"client": 1}
    yield "one to be started at once", [T(at=-SEC, ends=1)], {}
    yield "one to be started later", [T(at=1500000, ends=3)], {}
    yield "two to be started", [T(at=300000, ends=5), T(at=200000, ends=5)], {}
    yield "two to be started, in order", [T(at=200000, ends=5), T(at=700000, ends=5)], {}
    yield "one to be started after the little time that is left", [T(at=600000, ends=5), T()], {"timeout": 400000}
    yield "one to be started, one under way", [T(ends=1), T(at=700000, ends=4)], {}
    yield "one to be started after the time is over", [T(at=90 * SEC, ends=1)], {}
    yield "one has a time of its own", [T(timeoutAt=NOW + 5, ends=1), T(ends=2)], {}
    yield "the server shuts down", [T(ends=2), T(ends=1)], {"down": 1}


def waiting(ctx, notes):
    p = ctx.p
    rule = "waiting ends when every request has a result; what is unfinished then fails"
    for what, ts, k in waits():
        sc = dict({"timeout": 4 * SEC}, ts=ts, **k)

        def wait(I, w):
            w.command()
            I.call_fn(p.fn(BC + "_waitForHTTPSRequests"), [], w.cell)
            early = sc["timeout"] > (w.now - NOW) and not (sc.get("client") and w.cell.v.d["shouldAbort"].v)
            for t in w.ts:
                r = t.d["response"].v
                if not isinstance(r, int):
                    raise Give("a result")
                if not r:
                    return "it returns while a request has no result"
                if r != 200 and t.x.get("response") or t.x.get("response") and t.d["finished"].v != 5:
                    return "a result is overwritten"
                if not t.x.get("response") and t.d["finished"].v and r != 200:
                    return "a response is replaced by an error"
                if r != 200 and not 500 <= r < 600:
                    return "a request that has no response has the result %d" % r
                if r != 200 and early:
                    return "a request fails although there is time"
                if r == 200 and not t.x.get("response") and not t.d["finished"].v:
                    return "a request without a response succeeds"
            rs = [x for x in w.log if x[0] == "wait"]
            if not ts or all(t.get("response") for t in ts):
                return "it waits for nothing" if rs else None
            for i, t in enumerate(ts):
                if t.get("response"):
                    continue
                for x in rs:
                    if not any(y[0] == "postPoll" and y[1] == i for y in w.log[w.log.index(x):]) and not w.ts[i].d["finished"].v:
                        return "a request is not polled"
            return None
        run(ctx, rule, BC + "_waitForHTTPSRequests", what, lambda: WaitWorld(sc), wait, notes)

        def done(I, w):
            w.command()
            r = I.truth(I.call_fn(p.fn(BC + "areHttpsRequestsComplete"), [], w.cell).v)
            if r != all(t.get("response") for t in ts):
                return "says that the requests are %scomplete" % ("" if r else "not ")
            r = I.truth(I.call_fn(p.fn(BC + "areHttpsRequestsComplete"), [], w.cell).v)
            return None if r == all(t.get("response") for t in ts) else "the second answer differs from the first"
        run(ctx, rule, BC + "areHttpsRequestsComplete", what, lambda: WaitWorld(sc), done, notes)
    ctx.need(rule, 0 if notes else 30)
    rule2 = "no transaction is open while a command waits"
    fs = [f for f in p.fns.values() if f["q"] == BC + "waitForHTTPSRequests" and f.get("body")]
    ctx.require(len(fs) == 2, "the two ways to wait: %d" % len(fs))
    for f in fs:
        with_db = len(f["p"]) == 1
        for inside, read, write, begins, ts in itertools.product((0, 1) if with_db else (0,), (0, 1), (0, 1), (0, 1) if with_db else (1,), ([], [T(ends=1)])):
            if read and write or with_db and inside and not read and not write:
                continue
            sc = dict(ts=ts, timeout=4 * SEC, inside=inside, read=read, write=write, begins=begins)
            what = "%s%s%s%s, %d requests" % ("in a transaction" if inside else "no transaction", ", peeking" if read else "", ", processing" if write else "", "" if begins else ", cannot begin", len(ts))

            def go(I, w):
                w.command()
                err = None
                try:
                    I.call_fn(f, [Cell(Thing("SQLite"))] if with_db else [], w.cell)
                except Throw as t:
                    if t.typ == "abort":
                        raise
                    err = t
                ws = [i for i, x in enumerate(w.log) if x[0] in ("wait", "prePoll", "postPoll")]
                rb = [i for i, x in enumerate(w.log) if x[0] == "rollback"]
                bg = [i for i, x in enumerate(w.log) if x[0] == "begin"]
                if (inside and write) or not with_db and (read or write):
                    return None if err and not ws and not rb else "waits in a transaction" if ws or not err else "rolls back a transaction that writes"
                if err and (begins or not inside):
                    return "refuses to wait"
                if not inside:
                    return "there was no transaction, and now there is" if rb or bg else "does not wait" if ts and not ws else None
                if len(rb) != 1 or ws and rb[0] > ws[0]:
                    return "waits in a transaction" if ws else "keeps its transaction"
                if ts and not ws:
                    return "does not wait"
                if len(bg) != 1 or ws and bg[0] < ws[-1] or bg[0] < rb[0]:
                    return "the transaction is not there again afterwards"
                if w.log[bg[0]][1] != Term("type"):
                    return "the transaction is of another type afterwards"
                if not begins and not err:
                    return "goes on without its transaction"
                return None
            run(ctx, rule2, f, what, lambda: WaitWorld(sc), go, notes)
    ctx.need(rule2, 0 if notes else 10)


# ------------------------------------------------------------------------------------------------ what goes to the leader
class WireWorld(HWorld):
    def __init__(self):
        HWorld.__init__(self, (BC,))

    def inline(self, I, g):
        return g["q"].startswith(BC)

    def empty(self, I, s):
        return 0 if s.p else 1

    def special(self, I, e, q, n, a, fr):
        if q in ("SEncodeBase64", "SDecodeBase64"):
            v = I.to_str(I.ev(a[0], fr))
            if q == "SEncodeBase64":
                return Cell(Str(Term("b64", v)))
            return Cell(v.p[0].args[0] if len(v.p) == 1 and isinstance(v.p[0], Term) and v.p[0].fn == "b64" else Str(Term("un64", v)))
        if q == "SParseJSONArray":
            v = I.to_str(I.ev(a[0], fr))
            if len(v.p) == 1 and isinstance(v.p[0], Term) and v.p[0].fn == "json":
                return Cell(thaw_copy(v.p[0].args[0].v))
            return Cell(CList())
        return None


def wire(ctx, notes):
    p = ctx.p
    rule = "the results that a command takes along are the ones it had"

    def message(x):
        d = data()

        def de(I, c):
            v = I.to_str(c.v)
            if len(v.p) == 1 and isinstance(v.p[0], Term) and v.p[0].fn == "message":
                d.what = v.p[0].args[0]
            return 1
        d.what = x
        d.m = {"serialize": lambda I: Str(Term("message", d.what)), "deserialize": de}
        return d
    for k in (0, 1, 3):
        def go(I, w):
            ts = []
            old = w.transaction

            def fresh(**kw):
                t = old(**kw)
                t.d["fullRequest"].v, t.d["fullResponse"].v = message(None), message(None)
                ts.append(t)
                return t
            mine = [old(created=100 + i, finished=200 + i, timeoutAt=300 + i, response=400 + i, fullRequest=message("q%d" % i), fullResponse=message("a%d" % i)) for i in range(k)]
            w.transaction = fresh
            cell = lambda xs: Cell(Thing("command", {"httpsRequests": linked.Linked(xs), "request": Thing("SData", {}, {"operator[]": lambda I, c: Str("id")})}))
            text = I.call_fn(p.fn(BC + "serializeHTTPSRequests"), [], cell(mine)).v
            if k == 0 and text != Str(""):
                return "there is something to take along"
            other = cell([])
            I.call_fn(p.fn(BC + "deserializeHTTPSRequests"), [Cell(text)], other)
            got = [n.c.v for n in other.v.d["httpsRequests"].v.nodes]
            if len(got) != k:
                return "%d requests arrive, %d were there" % (len(got), k)
            for i, (a, b) in enumerate(zip(mine, got)):
                for n in ("created", "finished", "timeoutAt", "response"):
                    if a.d[n].v != b.d[n].v:
                        return "%s of a request is not what it was" % n
                for n in ("fullRequest", "fullResponse"):
                    if a.d[n].v.what != b.d[n].v.what:
                        return "%s of a request is not what it was" % n
                if b.d["s"].v != 0:
                    return "a request that arrives has a connection"
            return None
        run(ctx, rule, BC + "serializeHTTPSRequests", "%d requests" % k, WireWorld, go, notes)
    ctx.need(rule, 0 if notes else 3)


FLAG = "isBlockingCommitThread"


def refuses(ctx, notes):
    """The thread of blocking commits starts no request: a transaction refuses to be made there, and the thread knows which it is."""
    p = ctx.p
    rule = "the thread of blocking commits starts no request"
    ctors = [f for f in p.fns.values() if f["q"] == HM + "Transaction::Transaction" and f.get("body") and len(f.get("p") or ()) == 2]
    ctx.require(len(ctors) == 1, "the constructor of a transaction")

    class W(HWorld):
        def __init__(self, on):
            HWorld.__init__(self, ())
            self.on = on

        def var(self, I, e, fr):
            return Cell(self.on) if e.get("vk") == "global" and e.get("n") == FLAG else None
    for on, rid in itertools.product((0, 1), ("", "id")):
        def make(I, w):
            fr = Frame(ctors[0], None, Cell(w.transaction()))
            fr.vars[ctors[0]["p"][0]["id"]] = Cell(Thing("Manager"))
            fr.vars[ctors[0]["p"][1]["id"]] = Cell(Str(rid))
            try:
                I.st(ctors[0]["body"], fr)
            except Flow:
                pass
            except Throw as t:
                if t.typ == "abort":
                    raise
                return None if on else "a request is refused on other threads"
            return "a request starts on the thread of blocking commits" if on else None
        run(ctx, rule, ctors[0], "thread of blocking commits" if on else "other threads", lambda: W(on), make, notes)
    f = p.fn("BedrockServer::worker")
    prm = f["p"][0]["id"]
    g = ctx.graph(f)
    for tid in (0, 1):
        class V(HWorld):
            def var(self, I, e, fr):
                return Cell(tid) if e.get("id") == prm else None

            def call(self, I, e, q, fr):
                raise Give("a call")

        def value(e):
            try:
                v = Interp(p, V(())).ev(e, Frame(f))
                return v if isinstance(v, int) else None
            except (Give, Throw, Flow, linked.Bad, AttributeError, TypeError, KeyError, IndexError):
                return None
        todo, seen, used = [(g.nodes[0], 0)], set(), 0
        while todo:
            n, v = todo.pop()
            if (n.i, v) in seen:
                continue
            seen.add((n.i, v))
            ctx.states += 1
            e = n.e if isinstance(n.e, dict) else {}
            if n.k == "call" and e.get("q") == "SInitialize":
                v = 0
            t = strip(e.get("x") or e.get("obj") or {})
            if n.k == "assign" and isinstance(t, dict) and t.get("n") == FLAG and t.get("vk") == "global":
                v = value(e["y"]) if e.get("op") == "=" and isinstance(e.get("y"), dict) else None
            if n.k == "call" and e.get("q") == "BedrockServer::runCommand":
                used += 1
                if v is None:
                    notes.append("what the thread takes itself for is not determined (line %s)" % n.l)
                elif bool(v) != (tid == 0):
                    ctx.bad(rule, f["q"], "wrong thread", "%s:%s" % (f["file"], n.l), "thread %d runs commands as if it were %sthe thread of blocking commits" % (tid, "" if v else "not "))
            c = value(n.e) if n.k == "branch" and n.succ and {x for _, x in n.succ} <= {"T", "F"} else None
            todo += [(m, v) for m, lab in n.succ if c is None or lab == ("T" if c else "F")]
        ctx.ok(rule, "%s: thread %d, %d uses" % (f["q"], tid, used))
        ctx.require(used, "the worker runs commands")


@prop("C62")
def c62(ctx):
    notes = []
    for part in (transactions, sending, waiting, wire, refuses):
        mine = []
        part(ctx, mine)
        notes += mine
    for n in sorted(set(notes))[:20]:
        ctx.undecided.append(n)
