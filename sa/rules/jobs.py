"""The job queue: life cycle of a job (C59), handing jobs out (C58)."""
from . import prop
from ..lib import *
from ..absint import *
from .. import minisql

CLS = "BedrockJobsCommand::"
NOW = "2026-06-15 12:00:00.000"
PENDING = ("QUEUED", "RUNQUEUED", "RUNNING", "PAUSED")
STATES = ("QUEUED", "RUNQUEUED", "RUNNING", "PAUSED", "FINISHED", "CANCELLED", "FAILED")
VALIDATORS = {"BedrockPlugin::verifyAttributeInt64", "BedrockPlugin::verifyAttributeSize", "BedrockPlugin::verifyAttributeBool"}
WRITES = {"SQLite::write", "SQLite::writeIdempotent", "SQLite::writeUnmodified"}


class Req:
    """The request: fields that the scenario fixes (text or None), the others present or absent as the path decides."""

    def __init__(self, verb, fields, world):
        self.verb, self.fields, self.world = verb, dict(fields), world
        self.cells = {}
        self.map = CMap(None, self.get)
        self.content = Cell(Str(Term("content")))

    def key(self):
        return Term("request")

    def get(self, n):
        if n not in self.fields:
            if self.world.closed:
                self.fields[n] = None
            else:
                self.fields[n] = Str(Term("request", n)) if self.world.I.choose(("field", n), (False, True)) else None
        v = self.fields[n]
        return Str(v) if isinstance(v, str) else v

    def member(self, n, e):
        if n == "methodLine":
            return Cell(Str(self.verb))
        if n == "nameValueMap":
            return Cell(self.map)
        if n == "content":
            return self.content
        return None


class Sealed:
    closed = True


class World:
    """Models of what the commands use: the request, the database, the helpers whose result does not matter here."""
    CONSTS = ("data", "newdata")
    CLS, FILES = CLS, ("Jobs.cpp", "Jobs.h")

    def make(self):
        return minisql.Table("jobs", [dict(r) for r in self.sc["rows"]], self.ask, self.json)

    def __init__(self, ctx, sc):
        self.ctx, self.sc = ctx, sc
        self.json = dict(sc.get("json", {}))
        self.table = self.make()
        self.req = Req(sc["verb"], sc.get("req", {}), self)
        self.closed = sc.get("closed", False)
        self.I = None
        self.failed = []          # operations of the database that failed on this path
        self.sql = []
        self.nextid = 7000
        self.sent = []            # commands given to the server
        self.refused = False      # a validation refused the request

    def ask(self, t):
        return self.I.choose(("t", t))

    def empty(self, I, s):
        if len(s.p) == 1 and isinstance(s.p[0], Term) and s.p[0].fn in ("request", "nextRun", "sql:col", "quoted", "json", "data", "newdata"):
            return 0
        return None

    def inline(self, I, g):
        return g["q"].startswith(self.CLS) or "@" in str(g.get("id", "")) or g["file"].endswith(self.FILES)

    def text(self, v):
        return v if isinstance(v, Str) else Str(v) if isinstance(v, (str, Term)) else Str(str(v)) if v is not None else Str()

    def fails(self, what, sql, options=("ok", "fails")):
        if len(self.failed) >= self.sc.get("fails", 1) or self.sc.get("nofail"):
            return "ok"
        r = self.I.choose(None, options)
        if r != "ok":
            self.failed.append((what, r, self.I.line, sql))
        return r

    def read(self, sql, res):
        st = minisql.parse(sql)
        if st[0] != "select":
            raise Give("a read that is not a SELECT")
        rows = self.table.select(st)
        self.sql.append(("read", repr(sql)))
        if res is None:
            return Cell(self.text(rows[0][0]) if rows else Str())
        if self.fails("read", st) != "ok":
            res.v = CRes()
            return Cell(0)
        res.v = CRes([[self.text(v) for v in r] for r in rows])
        return Cell(1)

    def write(self, sql):
        st = minisql.parse(sql)
        opts = ("ok", "fails", "throws") if self.sc.get("constraint") else ("ok", "fails")
        r = self.fails("write", st, opts)
        if r == "throws":
            raise Throw("SQLite::constraint_error", "constraint", self.I.line)
        if r != "ok":
            return Cell(0)
        if st[0] == "select":
            raise Give("a write that is a SELECT")
        self.table.apply(st)
        self.sql.append(("write", repr(sql)))
        return Cell(1)

    def fields(self):
        return {}

    def construct(self, I, e, fr):
        t = e.get("t", "").replace("const ", "").strip()
        if t == "SData":
            a = [I.ev(x, fr) for x in e.get("a") or () if isinstance(x, dict) and x.get("k") != "defarg"]
            if len(a) == 1 and isinstance(a[0], Req):
                return Cell(a[0])
            if len(a) <= 1:
                return Cell(Req(a[0].lit if a and isinstance(a[0], Str) else "", {}, Sealed))
        return None

    def call(self, I, e, q, fr):
        self.I = I
        last = q.split("::")[-1]
        if q.startswith("std::make_unique") and e.get("a"):
            v = I.ev(e["a"][0], fr)
            if isinstance(v, Req):
                return Cell(v)
        if q == "BedrockServer::runCommand":
            self.sent.append(I.ev(e["a"][0], fr))
            return Cell(0)
        if q.startswith("SData::") and "obj" in e:
            o = I.ev(e["obj"], fr)
            if isinstance(o, Req):
                a = [I.ev(x, fr) for x in e.get("a", ()) if x.get("k") != "defarg"]
                if last == "getVerb":
                    return Cell(Str(o.verb))
                n = I.to_str(a[0]).lit if a else None
                if n is None:
                    return None
                v = o.get(n)
                if last == "isSet":
                    return Cell(int(v is not None))
                if last in ("operator[]", "at"):
                    if n not in o.cells:
                        o.cells[n] = Cell(v if v is not None else Str())
                    return o.cells[n]
                if last in ("calc", "calc64", "calcU64"):
                    return Cell(f_toint(I, e, Cell(v if v is not None else Str())))
                if last == "test":
                    s = v if v is not None else Str()
                    if s.lit is not None:
                        return Cell(int(s.lit.lower() in ("true", "yes", "1") or s.lit.isdigit() and int(s.lit) > 0))
                    return Cell(Term("test", n))
        if q.startswith("SQLite::") and "obj" in e:
            a = [x for x in e.get("a", ()) if x.get("k") != "defarg"]
            if last == "read":
                sql = I.to_str(I.ev(a[0], fr))
                res = I.lv(a[1], fr) if len(a) > 1 else None
                return self.read(sql, res)
            if q in WRITES:
                return self.write(I.to_str(I.ev(a[0], fr)))
            return Cell(Term(q))
        if q in VALIDATORS:
            if not self.closed and I.choose(None, ("ok", "refused")) == "refused":
                self.refused = True
                raise Throw("SException", "402 validation", I.line)
            return Cell(0)
        if q == CLS + "_validatePriority":
            v = I.ev(e["a"][0], fr)
            ok = v in (0, 250, 500, 750, 850, 1000) if isinstance(v, int) else I.choose(("priority", v))
            if not ok:
                self.refused = True
                raise Throw("SException", "402 priority", I.line)
            return Cell(0)
        if q == CLS + "_validateRepeat":
            ok = I.choose(("repeat", freeze(I.ev(e["a"][1], fr))), (True, False))
            self.refused = self.refused or not ok
            return Cell(int(ok))
        if q == CLS + "_constructNextRunDATETIME":
            a = [I.to_str(I.ev(x, fr)) for x in e["a"][1:]]
            if a[2].lit == "":
                return Cell(Str())
            if self.sc.get("nextrun", "ok") == "none" or a[2].lit is None and a[2].p and isinstance(a[2].p[0], str) and False:
                return Cell(Str())
            return Cell(Str(Term("nextRun", *a)))
        if q == "SQLiteUtils::getRandomID":
            self.nextid += 1
            return Cell(self.nextid)
        if last in ("SCURRENT_TIMESTAMP", "SCURRENT_TIMESTAMP_MS"):
            return Cell(Str("'" + NOW + "'")) if last == "SCURRENT_TIMESTAMP" else Cell(Str(NOW))
        if last == "SUNQUOTED_CURRENT_TIMESTAMP":
            return Cell(Str(NOW))
        if last == "getCrashedBedrockJobPatterns":
            return Cell(CList([Str(x) for x in self.sc.get("crashed", ())]))
        if q == "SParseIntegerList":
            s = I.to_str(I.ev(e["a"][0], fr))
            if s.lit is not None:
                return Cell(CList([int(x) for x in s.lit.split(",") if x.strip()]))
        if q == "SParseJSONArray":
            s = I.to_str(I.ev(e["a"][0], fr))
            if len(s.p) == 1 and isinstance(s.p[0], Term) and s.p[0].fn == "json":
                return Cell(thaw_copy(s.p[0].args[0].v))
            if s.lit == "":
                return Cell(CList())
        if q == "SParseJSONObject":
            s = I.to_str(I.ev(e["a"][0], fr))
            if len(s.p) == 1 and isinstance(s.p[0], Term) and s.p[0] in self.json:
                j = self.json[s.p[0]]
                m = CMap(None, lambda k: None if j.get(k) is None else Str("true" if j[k] == 1 and k in ("mockRequest", "delete") else str(j[k])))
                if any(v is not None for v in j.values()):
                    for k, v in j.items():
                        if v is not None:
                            m.fill(k)
                return Cell(m)
            if len(s.p) == 1 and isinstance(s.p[0], Term) and s.p[0].fn in ("request", "newdata"):
                return Cell(CMap(Term("parsed", s), lambda k: (Str("true") if I.choose(("data", k), (False, True)) else None) if k in ("mockRequest", "delete") else NotImplemented))
        return None


def run_verb(ctx, sc, functions, judge, notes, world=World):
    """All paths of the functions for a scenario: [(world, interp, kind, message)]; kind end, throw or give."""
    out = []
    p = ctx.p

    def go(I):
        w = I.hook
        w.I = I
        w.answer = {"request": Cell(w.req), "jsonContent": Cell(CMap()), "response": Cell(Obj({"content": Cell(Str())})), "mockRequest": Cell(int(bool(sc.get("mock")))), "_plugin": Cell(Term("plugin"))}
        w.answer.update(w.fields())
        this = Cell(Obj(w.answer))
        db = Cell(Term("db"))
        w.answer.update({k: Cell(v) for k, v in sc.get("answer", {}).items()})
        for f in functions:
            r = I.call_fn(p.fn(w.CLS + f), [db] if f in ("peek", "process") else [], this)
            w.returned = r is not None and bool(I.truth(r.v))
            if f == "peek" and w.returned:
                break
        return judge(w, I)
    for I, w, r in paths(p, lambda: world(ctx, sc), go, 3000, notes):
        ctx.states += I.steps
        w.aborted = r[0] == "throw" and r[1].typ == "abort"
        ctx.fns.update(I.functions)
        if r[0] == "give":
            notes.append("%s: %s (line %d)" % (sc["verb"], r[1], I.line))
        out.append((w, I, r[0], r[1]))
    return out


class Obj:
    """An object with named fields."""

    def __init__(self, d):
        self.d = d

    def key(self):
        return Term("this")

    def member(self, n, e):
        if n not in self.d:
            return None
        return self.d[n]


# ------------------------------------------------------------------------------------------------ scenarios and what must come out
J, P, U, V = 11, 21, 31, 32


def row(i, state, parent=0, **k):
    r = dict(created="2026-01-01 00:00:%02d" % (i % 60), jobid=i, state=state, name="www-prod/job", nextrun="2026-01-03 00:00:%02d" % (i % 60), lastrun="2026-01-02 00:00:%02d" % (i % 60), repeat="",
             data=Term("data", i), priority=500, parentjobid=parent, retryafter="")
    r.update(k)
    return r


def others():
    """Jobs that have nothing to do with the request."""
    return [row(U, "RUNNING", name="other/a"), row(V, "PAUSED", U, name="other/b"), row(33, "FINISHED", U, name="other/c"), row(34, "QUEUED", name="other/d", nextrun="2099-01-01 00:00:00")]


def jsons(rows, **mine):
    j = {r["data"]: {} for r in rows if isinstance(r["data"], Term)}
    for i, d in mine.items():
        j[Term("data", int(i[1:]))] = d
    return j


def scenario(verb, rows, req, **k):
    mine = k.pop("json", {})
    return dict(verb=verb, rows=rows, req=req, json=jsons(rows, **mine), **k)


def table(w):
    return {r["jobid"] if isinstance(r["jobid"], int) else str(r["jobid"]): r for r in w.table.rows}


def compare(w, sc, want, free=()):
    """want: {id: None (deleted) or {column: value or test}}; everything else must be as it was."""
    before = {r["jobid"]: r for r in sc["rows"]}
    after = table(w)
    for i, b in before.items():
        a = after.get(i)
        if i in want and want[i] is None:
            if a is not None:
                return "job %s is still there (state %s)" % (name_of(i), a["state"])
            continue
        if a is None:
            return "%s (%s) is deleted" % (name_of(i), b["state"])
        ws = want.get(i, {})
        for c in b:
            if c in ws:
                t = ws[c]
                if t is ANY:
                    continue
                if callable(t):
                    if not t(a[c]):
                        return "%s of %s becomes %r" % (c, name_of(i), a[c])
                elif a[c] != t:
                    return "%s of %s is %r after it was %r, not %r" % (c, name_of(i), a[c], b[c], t)
            elif a[c] != b[c] and c not in free:
                return "%s of %s changes from %r to %r" % (c, name_of(i), b[c], a[c])
    extra = [i for i in after if i not in before]
    if extra and not want.get("new"):
        return "a job is created"
    return None


ANY = object()


def name_of(i):
    return {J: "the job", P: "its parent", U: "an unrelated job", V: "an unrelated child"}.get(i, "an unrelated job" if i in (33, 34) else "a child" if 40 <= i < 50 else "a sibling" if 50 <= i < 60 else "job %s" % i)


class Checker:
    def __init__(self, ctx, rule, world=World):
        self.ctx, self.rule, self.world = ctx, rule, world
        self.notes = []
        self.done = 0

    def check(self, sc, functions, judge, must, what, tolerate=None, after=None):
        """must: the request has to be possible (some path ends), impossible (no path ends) or may do both (None)."""
        ctx = self.ctx
        fn = ctx.p.fn(self.world.CLS + functions[-1])
        out = run_verb(ctx, sc, functions, judge, self.notes, self.world)
        ended = [x for x in out if x[2] == "end"]
        given = [x for x in out if x[2] == "give"]
        inst = "%s: %s" % (sc["verb"], what)

        def bad(w, I, text):
            line = I.line if isinstance(I, Interp) and I.line else fn["l"]
            ctx.bad(self.rule, self.world.CLS + functions[-1], sc["verb"] + "|" + re.sub(r"\d+", "", text)[:80], "%s:%s" % (fn["file"], line), "%s (%s): %s" % (sc["verb"], what, text), [s[:200] for _, s in w.sql][-6:] if w else [])
        for w, I, kind, _ in out:
            msg = "the server is aborted" if w.aborted and not w.failed and sc.get("nextrun") != "none" else after and after(w, I, kind)
            if msg:
                bad(w, I, msg)
                break
        for w, I, kind, msg in ended:
            if msg:
                bad(w, I, msg)
                break
            if w.failed and not (tolerate and tolerate(w, I)):
                bad(w, I, "a %s of the database that failed at line %d is not reported" % (w.failed[0][0], w.failed[0][2]))
                break
        if must is True and not given and not any(not w.failed for w, _, _, _ in ended):
            bad(None, None, "the request is always refused")
        if must is False and ended:
            bad(ended[0][0], ended[0][1], "the request is not refused")
        if ended or not given:
            ctx.ok(self.rule, inst, max(1, len(out) - len(given)))
            self.done += 1


def kids(*states):
    return [row(40 + i, s, J, name="www-prod/kid") for i, s in enumerate(states)]


def siblings(*states):
    return [row(50 + i, s, P, name="www-prod/kid") for i, s in enumerate(states)]


FAMILIES = ((), ("FINISHED",), ("CANCELLED", "FINISHED"), ("PAUSED",), ("PAUSED", "PAUSED", "FINISHED"), ("QUEUED",), ("RUNNING",), ("RUNQUEUED", "CANCELLED"))
SIBLINGS = ((), ("FINISHED",), ("CANCELLED",), ("FAILED",), ("QUEUED",), ("RUNQUEUED",), ("RUNNING",), ("FINISHED", "RUNNING"), ("FINISHED", "CANCELLED", "FAILED"))


def finish(ctx):
    C = Checker(ctx, "finished and retried as the life cycle says")
    TEST = {"true": True, None: False}

    def scene(verb, state, parent, pstate, family=(), sibs=(), req=(), mocked=False, **k):
        kk = {"repeat": k.pop("repeat", ""), "retryafter": k.pop("retryafter", "")}
        js = dict({"mockRequest": 1} if mocked else {}, **k.pop("jdata", {}))
        rows = [row(J, state, P if parent else 0, **kk)] + ([row(P, pstate)] + siblings(*sibs) if parent else []) + kids(*family) + others()
        fields = {"jobID": str(J), "data": None, "name": None, "jobPriority": None, "ignoreRepeat": None, "nextRun": None, "delay": None}
        fields.update(dict(req))
        sc = scenario(verb, rows, fields, json={"j%d" % J: js}, **k)
        refused = state not in ("RUNNING", "RUNQUEUED") and not mocked or parent and pstate != "PAUSED"
        data = fields["data"]

        def judge(w, I):
            want = {i: None for i in range(40, 40 + len(family)) if family[i - 40] in ("FINISHED", "CANCELLED")}
            base = Term("data", J)
            deleted = False
            if data is not None:
                base = norm_value(data)
                if I.choose(("data", "mockRequest"), (False, True)) != bool(mocked):
                    return "data that disagrees with the job on being mocked is accepted"
                deleted = I.choose(("data", "delete"), (False, True))
            clean = lambda v: isinstance(v, Term) and v.fn == "sql:JSON_REMOVE" and v.args[0] == base and "$.retryAfterCount" in v.args[1:]
            pend = [s for s in family if s in PENDING]
            if verb == "FinishJob" and pend:
                want[J] = {"state": "PAUSED", "nextrun": w0(sc, J)["lastrun"], "data": clean}
                for i, s in enumerate(family):
                    if s == "PAUSED":
                        want[40 + i] = {"state": "QUEUED"}
                return compare(w, sc, want)
            repeat = "" if deleted else kk["repeat"]
            r0 = w0(sc, J)
            if repeat and not TEST.get(fields["ignoreRepeat"]):
                last = r0["nextrun"]
                if kk["retryafter"] and "SCHEDULED" in repeat.upper():
                    last = js.get("originalNextRun") or last
                nextrun = lambda v: isinstance(v, Term) and v.fn == "nextRun" and [norm_value(x) for x in v.args] == [last, r0["lastrun"], repeat]
                again = sc.get("nextrun") != "none"
            elif verb == "RetryJob":
                again = True
                if fields["nextRun"] is not None:
                    nextrun = norm_value(fields["nextRun"])
                else:
                    n = fields["delay"] or "0"
                    nextrun = lambda v: isinstance(v, Term) and v.fn == "nextRun" and norm_value(v.args[2]).replace(" ", "").upper() == "FINISHED,+%sSECONDS" % n
            else:
                again = False
            if again:
                want[J] = {"state": "QUEUED", "nextrun": nextrun, "data": clean}
                if verb == "RetryJob":
                    if fields["name"] is not None:
                        want[J]["name"] = norm_value(fields["name"])
                    if fields["jobPriority"] is not None:
                        want[J]["priority"] = lambda v: str(v) == fields["jobPriority"]
                return compare(w, sc, want)
            if verb == "RetryJob":
                return None
            if not parent:
                want[J] = None
                if any(s not in ("FINISHED", "CANCELLED") for s in family):
                    return "the job is deleted although it still has a child"
                return compare(w, sc, want)
            want[J] = {"state": "FINISHED", "data": ANY}
            if not any(s in PENDING for s in sibs):
                want[P] = {"state": "QUEUED"}
            return compare(w, sc, want)
        can = None if (verb == "RetryJob" and sc.get("nextrun") == "none") or "FAILED" in family else not refused
        C.check(sc, ("process",), judge, False if refused else can, ", ".join(["%s" % state] + (["parent %s" % pstate] if parent else []) + (["children " + "/".join(family)] if family else []) +
                (["siblings " + "/".join(sibs)] if sibs else []) + (["mocked"] if mocked else []) + ["%s=%s" % (a, b) for a, b in kk.items() if b] + ["%s=%r" % (a, b) for a, b in dict(req).items()] +
                (["no next run"] if sc.get("nextrun") == "none" else [])))
    for verb in ("FinishJob", "RetryJob"):
        for s in STATES:
            for m in (False, True):
                scene(verb, s, False, None, mocked=m)
                for ps in STATES if s in ("RUNNING", "RUNQUEUED") else ("PAUSED", "RUNNING"):
                    scene(verb, s, True, ps, mocked=m)
        for f in FAMILIES[1:] + (("FAILED",), ("FAILED", "PAUSED")):
            scene(verb, "RUNNING", False, None, f)
            scene(verb, "RUNQUEUED", False, None, f, retryafter="+5 MINUTES")
        for f in SIBLINGS[1:]:
            scene(verb, "RUNNING", True, "PAUSED", (), f)
        newdata = Str(Term("newdata"))
        for req in ((), (("data", newdata),), (("ignoreRepeat", "true"),), (("nextRun", "2030-01-01 00:00:00"),), (("delay", "15"),), (("delay", "15"), ("ignoreRepeat", "true")), (("name", "www-prod/renamed"), ("jobPriority", "850")),
                    (("data", newdata), ("nextRun", "2030-01-01 00:00:00"))):
            for rep in ("", "SCHEDULED, +1 HOUR", "FINISHED, +1 DAY", "HOURLY"):
                for ra, jd in (("", {}), ("+5 MINUTES", {"originalNextRun": "2026-01-01 09:00:00"}), ("+5 MINUTES", {})):
                    for par in (False, True):
                        if par and (ra or rep not in ("", "SCHEDULED, +1 HOUR")):
                            continue
                        scene(verb, "RUNNING", par, "PAUSED", (), (), req, repeat=rep, retryafter=ra, jdata=jd, nofail=len(req) != 1)
            scene(verb, "RUNNING", False, None, (), (), req, repeat="SCHEDULED, +1 HOUR", nextrun="none", nofail=True)
        scene(verb, "RUNNING", False, None, (), (), (("data", newdata),), mocked=True)
    return C


def norm_value(v):
    return minisql.norm(Str(v) if isinstance(v, str) else v)


def w0(sc, i):
    return next(r for r in sc["rows"] if r["jobid"] == i)


def cancel(ctx):
    C = Checker(ctx, "cancelled as the life cycle says")

    def scene(state, parent, pstate, family=(), sibs=()):
        rows = [row(J, state, P if parent else 0)] + ([row(P, pstate)] + siblings(*sibs) if parent else []) + kids(*family) + others()
        sc = scenario("CancelJob", rows, {"jobID": str(J)})
        able = parent and not family and state not in ("FINISHED", "RUNNING", "PAUSED")

        def judge(w, I):
            want = {}
            if able:
                want[J] = {"state": "CANCELLED"}
                if pstate == "PAUSED" and not any(s in PENDING for s in sibs):
                    want[P] = {"state": "QUEUED"}
            return compare(w, sc, want)
        C.check(sc, ("peek", "process"), judge, True if able else None, ", ".join([state] + (["parent %s" % pstate] if parent else []) + (["children " + "/".join(family)] if family else []) + (["siblings " + "/".join(sibs)] if sibs else [])))
    for s in STATES:
        scene(s, False, None)
        scene(s, True, "PAUSED", ("FINISHED",))
        scene(s, True, "PAUSED", ("QUEUED",))
        for ps in STATES:
            scene(s, True, ps)
            scene(s, True, ps, (), ("FINISHED", "CANCELLED"))
        for f in SIBLINGS[1:]:
            scene(s, True, "PAUSED", (), f)
        scene(s, True, "RUNNING", (), ("PAUSED",))
    return C


def simple(ctx):
    C = Checker(ctx, "failed, deleted, updated and requeued as the life cycle says")
    for s in STATES:
        for par in (False, True):
            rows = lambda: [row(J, s, P if par else 0)] + ([row(P, "PAUSED")] if par else []) + kids("PAUSED") + others()
            what = s + (", with a parent" if par else "")
            for data in (None, Str(Term("newdata"))):
                sc = scenario("FailJob", rows(), {"jobID": str(J), "data": data})
                want = {J: {"state": "FAILED", "data": norm_value(data) if data is not None else Term("data", J)}}
                C.check(sc, ("process",), lambda w, I: compare(w, sc, want), s in ("RUNNING", "RUNQUEUED"), what)
            sc = scenario("DeleteJob", rows(), {"jobID": str(J)})
            C.check(sc, ("process",), lambda w, I: compare(w, sc, {J: None}), s not in ("RUNNING", "PAUSED"), what)
            for rep in (None, "DAILY"):
                for extra in ({}, {"nextRun": "2030-01-01 00:00:00"}, {"jobPriority": "1000"}, {"shouldClearRepeat": "1"}):
                    f = {"jobID": str(J), "data": Str(Term("newdata")), "repeat": rep, "nextRun": None, "jobPriority": None, "shouldClearRepeat": None}
                    f.update(extra)
                    sc = scenario("UpdateJob", rows(), f, nofail=bool(extra))
                    want = {J: {"data": ANY, "repeat": "" if extra.get("shouldClearRepeat") else rep or "", "nextrun": ANY if rep or f["nextRun"] else w0(sc, J)["nextrun"],
                                "priority": (lambda v: str(v) == f["jobPriority"]) if f["jobPriority"] else 500}}
                    if f["nextRun"]:
                        want[J]["nextrun"] = f["nextRun"]
                    C.check(sc, ("process",), lambda w, I: compare(w, sc, want), True, what)
            sc = scenario("RequeueJobs", rows(), {"jobIDs": "%d" % J, "name": None, "decrementFailures": None})
            C.check(sc, ("process",), lambda w, I: compare(w, sc, {J: {"state": "QUEUED", "nextrun": w0(sc, J)["created"]}}), True, what)
    rows = [row(J, "RUNNING"), row(P, "RUNQUEUED")] + others()
    sc = scenario("RequeueJobs", rows, {"jobIDs": "%d, %d" % (J, P), "name": "www-prod/other", "decrementFailures": "true"})
    C.check(sc, ("process",), lambda w, I: compare(w, sc, {i: {"state": "QUEUED", "nextrun": w0(sc, i)["created"], "name": "www-prod/other", "data": ANY} for i in (J, P)}), True, "two jobs")
    sc = scenario("RequeueJobs", rows, {"jobIDs": None, "name": None, "decrementFailures": None})
    C.check(sc, ("process",), lambda w, I: compare(w, sc, {}), True, "no jobs")
    for verb in ("FinishJob", "RetryJob", "FailJob", "DeleteJob", "UpdateJob"):
        sc = scenario(verb, others(), {"jobID": str(J), "data": Str(Term("newdata")) if verb == "UpdateJob" else None})
        C.check(sc, ("process",), lambda w, I: compare(w, sc, {}), False, "no such job")
    sc = scenario("CancelJob", others(), {"jobID": str(J)})
    C.check(sc, ("peek", "process"), lambda w, I: compare(w, sc, {}), False, "no such job")
    COLS = ("created", "jobID", "state", "name", "nextRun", "lastRun", "repeat", "data", "retryAfter", "priority")
    for s in STATES:
        rows = [row(J, s, repeat="DAILY", retryafter="+5 MINUTES")] + others()
        sc = scenario("QueryJob", rows, {"jobID": str(J)})

        def judge(w, I):
            got = w.answer["jsonContent"].v
            for c in COLS:
                v = got.d[c].v if c in got.d else None
                x = w0(sc, J)[c.lower()]
                if v is None or norm_value(v) != (str(x) if isinstance(x, int) else x):
                    return "the answer gives %s as %r" % (c, v)
            return compare(w, sc, {})
        C.check(sc, ("peek",), judge, True, s)
    return C


def create(ctx):
    C = Checker(ctx, "created as the life cycle says")
    DATA = (None, Str(Term("newdata")))

    def scene(many, pstate, req, grand=False, pmock=False, mock=False, twin=None, twinmock=False, what=""):
        """twin: None, or the data of an existing job of the same name ('same' or 'other')."""
        rows = ([row(P, pstate, U if grand else 0)] if pstate else []) + others()
        data = dict(req).get("data")
        fields = {"name": "www-prod/new", "data": None, "jobPriority": None, "priority": None, "firstRun": None, "repeat": None, "unique": None, "overwrite": None, "parentJobID": str(P) if pstate else None, "retryAfter": None}
        fields.update(dict(req))
        if twin:
            rows.append(row(61, "QUEUED", name="www-prod/new"))
            if twin == "same":
                rows[-1]["data"] = norm_value(data) if data is not None else "{}"
        js = {}
        sc = scenario("CreateJobs" if many else "CreateJob", rows, {}, nofail=bool(twin) and many)
        if pmock:
            sc["json"][Term("data", P)] = {"mockRequest": 1}
        if twin:
            if isinstance(rows[-1]["data"], Term):
                sc["json"][rows[-1]["data"]] = {"x": 1}
            if twinmock and isinstance(rows[-1]["data"], Term):
                sc["json"][rows[-1]["data"]] = {"mockRequest": 1}
        f = {k: v for k, v in fields.items()}
        if many:
            m = CMap()
            for k, v in f.items():
                if v is not None:
                    m.d[k] = Cell(Str(v) if isinstance(v, str) else v)
            req2 = {"jobs": Str(Term("json", Box(CList([Str(Term("json", Box(m)))]))))}
        else:
            req2 = f
        req2["mockRequest"] = "true" if mock else None
        sc["req"] = req2
        # what must come out
        parentok = not pstate or pstate in ("RUNNING", "RUNQUEUED", "PAUSED") and not grand
        ismock = pmock if pstate else mock
        hit = twin and fields["unique"] == "true" and twinmock == ismock
        over = fields["overwrite"] in (None, "true")

        def judge(w, I):
            t = table(w)
            before = {r["jobid"] for r in sc["rows"]}
            new = [r for i, r in t.items() if i not in before]
            ans = w.answer["jsonContent"].v.d
            if many:
                l = norm_value(ans["jobIDs"].v) if "jobIDs" in ans else None
                ids = [norm_value(c.v) for c in l.args[0].v.items] if isinstance(l, Term) and l.fn == "json" else l
            else:
                ids = [norm_value(ans["jobID"].v)] if "jobID" in ans else []
            if hit:
                if new:
                    return "a second job of a unique name is created"
                if ids != ["61"]:
                    return "the answer names %r instead of the existing job" % (ids,)
                ok = {"data": ANY, "repeat": ANY, "priority": ANY} if over and twin != "same" else {}
                return compare(w, sc, {61: ok})
            if len(new) != 1:
                return "%d jobs are created" % len(new)
            n = new[0]
            if ids != [str(n["jobid"])]:
                return "the answer names %r instead of the new job" % (ids,)
            state = "PAUSED" if pstate in ("RUNNING", "RUNQUEUED") else "QUEUED"
            if n["state"] != state:
                return "the new job starts %s" % n["state"]
            want = {"name": fields["name"], "parentjobid": P if pstate else 0, "retryafter": fields["retryAfter"] or "", "repeat": "" if ismock else (fields["repeat"] or "").upper(), "nextrun": fields["firstRun"] or NOW,
                    "priority": int(fields["jobPriority"] or 500)}
            for c, x in want.items():
                if c not in n or str(n[c]) != str(x):
                    return "%s of the new job is %r" % (c, n.get(c))
            d = n["data"]
            if isinstance(d, Term) and d.fn == "json":
                m = d.args[0].v
                marked = "mockRequest" in m.d
                if ismock != marked:
                    return "the new job is %smocked" % ("" if marked else "not ")
            elif d == '{"mockRequest":true}':
                if not ismock:
                    return "the new job is mocked"
            elif ismock:
                return "the new job is not mocked"
            elif data is not None and d != norm_value(data) or data is None and d != "{}":
                return "data of the new job is %r" % (d,)
            return compare(w, sc, {"new": True})
        must = True if parentok else False
        if many and pstate and pmock != mock:
            must = None
        C.check(sc, ("peek", "process"), judge, must, ", ".join(["parent %s%s%s" % (pstate, " with a parent" if grand else "", ", mocked" if pmock else "")] * bool(pstate) + ["mocked"] * mock + (["unique, existing job with %s data%s" % (twin, ", mocked" if twinmock else "")] if twin else []) +
                ["%s=%r" % (a, b) for a, b in dict(req).items()] + ["in a list"] * many) or "plain")
    for many in (False, True):
        for m in (False, True):
            scene(many, None, (), mock=m)
            for st in STATES:
                for pm in (False, True):
                    scene(many, st, (), mock=m, pmock=pm)
            scene(many, "RUNNING", (), grand=True, mock=m, pmock=m)
            scene(many, "PAUSED", (), grand=True, mock=m, pmock=m)
        for data in DATA:
            scene(many, None, (("data", data), ("repeat", "daily"), ("jobPriority", "850"), ("retryAfter", "+5 MINUTES"), ("firstRun", "2030-01-01 00:00:00")))
            for tw in ("same", "other"):
                for over in (None, "true", "false"):
                    scene(many, None, (("data", data), ("unique", "true"), ("overwrite", over)), twin=tw)
            scene(many, None, (("data", data), ("unique", "true")), twin="other", mock=True)
            scene(many, None, (("data", data), ("unique", "true")), twin="other", twinmock=True)
            scene(many, None, (("data", data), ("unique", "true")), twin="other", mock=True, twinmock=True)
            scene(many, None, (("data", data),), twin="other")
    return C


MATCH = "www-prod/*"


def cand(i, state="QUEUED", **k):
    d = {"prio": 500, "name": "www-prod/x", "due": True, "mock": False, "retry": "", "count": None, "repeat": "", "kids": (), "parent": False}
    d.update(k)
    d.update(id=i, state=state)
    return d


def handout(ctx):
    C = Checker(ctx, "handed out once, in order, and marked")

    def scene(what, cands, many=True, limit="5", name=MATCH, prio=None, mocked=None, crashed=(), swap=False, **k):
        rows, js = [], {}
        for c in cands:
            at = ("2026-06-%02d 00:00:00" % (c.get("at", c["id"] - 70) + 1) if c["due"] is True else c["due"]) if c["due"] else "2026-06-15 12:00:01"
            rows.append(row(c["id"], c["state"], P if c["parent"] else 0, priority=c["prio"], name=c["name"], nextrun=at, retryafter=c["retry"], repeat=c["repeat"]))
            d = {}
            if c["mock"]:
                d["mockRequest"] = 1
            if c["count"] is not None:
                d["retryAfterCount"] = c["count"]
            js["j%d" % c["id"]] = d
            for n, st in enumerate(c["kids"]):
                rows.append(row(c["id"] * 10 + n, st, c["id"], name="kid/%d" % n))
        if swap:
            rows.reverse()
        rows.append(row(P, "PAUSED", name="zzz/parent"))
        rows += others()
        req = {"name": name, "numResults": limit if many else None, "jobPriority": prio, "getMockedJobs": "true" if mocked == "asked" else None, "mockRequest": "true" if mocked == "header" else None}
        sc = scenario("GetJobs" if many else "GetJob", rows, req, json=js, mock=mocked == "header", crashed=crashed, **k)
        by = {c["id"]: c for c in cands}
        glob = minisql.fnmatch.fnmatchcase
        names = [x.strip() for x in name.split(",") if x.strip()]
        hits = [c for c in cands if c["state"] in ("QUEUED", "RUNQUEUED") and c["due"] and (not c["mock"] or mocked) and (prio is None or c["prio"] == int(prio)) and
                (c["name"] in names if len(names) > 1 else glob(c["name"], name))]
        at = {r["jobid"]: r for r in rows}
        hits.sort(key=lambda c: (-c["prio"], at[c["id"]]["nextrun"]))
        hits = hits[:int(limit) if many else 1]
        black = [c["id"] for c in hits if any(glob(c["name"], x) for x in crashed)]
        worn = [c["id"] for c in hits if c["retry"] and (c["count"] or 0) >= 10 and c["id"] not in black]

        def lost(w):
            """Jobs whose retryAfter could not be applied on this path."""
            out = []
            for op, r, line, st in w.failed:
                if op == "write" and st[0] == "update" and any(c == "nextrun" for c, _ in st[2]):
                    out += [r0["jobid"] for r0 in w.table.rows if w.table.truth(st[3], r0)]
            return [i for i in out if i in by and by[i]["retry"]]

        def judge(w, I):
            gone = lost(w)
            want = {i: {"state": "FAILED"} for i in black + worn + gone}
            order = []
            for c in hits:
                i = c["id"]
                if i in want:
                    continue
                order.append(i)
                if not c["retry"]:
                    want[i] = {"state": "RUNNING", "lastrun": NOW}
                    continue

                def nextrun(v, c=c):
                    after = Term("sql:DATETIME", NOW, c["retry"])
                    if c["repeat"]:
                        n = [x for x in v.args if x != after] if isinstance(v, Term) and v.fn == "sql:MIN" and after in v.args else []
                        return len(n) == 1 and isinstance(n[0], Term) and n[0].fn == "nextRun" and [norm_value(x) for x in n[0].args] == [at[c["id"]]["nextrun"], NOW, c["repeat"]]
                    return v == after

                def data(v, c=c):
                    base = Term("data", c["id"])
                    if c["name"].startswith("manual"):
                        return v == base
                    if not (isinstance(v, Term) and v.fn == "sql:JSON_SET" and v.args[0] == base and len(v.args) % 2):
                        return False
                    sets = dict(zip(v.args[1::2], v.args[2::2]))
                    w0_ = {"$.retryAfterCount": (c["count"] or 0) + 1}
                    if "SCHEDULED" in c["repeat"].upper():
                        w0_["$.originalNextRun"] = at[c["id"]]["nextrun"]
                    return {a: str(b) for a, b in sets.items()} == {a: str(b) for a, b in w0_.items()}
                want[i] = {"state": "RUNQUEUED", "lastrun": NOW, "nextrun": nextrun, "data": data}
            r = compare(w, sc, want)
            if r:
                return r
            # the answer
            if many:
                ans = w.answer["jsonContent"].v.d
                l = unjson(ans["jobs"].v) if "jobs" in ans else None
                got = [unjson(c.v) for c in l.items] if isinstance(l, CList) else None
            else:
                content = w.answer["response"].v.d["content"].v
                m = unjson(content)
                got = [m] if isinstance(m, CMap) else [] if content.lit in ("{}", "") else None
            if got is None or not all(isinstance(m, CMap) for m in got):
                return "the answer is not known to be a list of the jobs"
            ids = [int(str(norm_value(m.d["jobID"].v))) for m in got if "jobID" in m.d]
            if sorted(ids) != sorted(order) or len(ids) != len(got):
                return "the answer has the jobs %s, and %s were marked as running" % (ids, order)
            if ids != order:
                return "the answer has the jobs in the order %s, not %s" % (ids, order)
            for i, m in zip(ids, got):
                for f in ("name", "data", "retryAfter", "created", "repeat", "lastRun", "nextRun", "priority"):
                    v = norm_value(m.d[f].v) if f in m.d else None
                    if str(v) != str(at[i][f.lower()]):
                        return "the answer gives %s as %r" % (f, v)
                if by[i]["parent"]:
                    if "parentJobID" not in m.d or str(norm_value(m.d["parentJobID"].v)) != str(P) or norm_value(m.d["parentData"].v) != Term("data", P):
                        return "the answer does not give the parent of the job and its data"
                elif "parentJobID" in m.d:
                    return "the answer gives a parent of a job that has none"
                for f, st in (("finishedChildJobs", "FINISHED"), ("cancelledChildJobs", "CANCELLED")):
                    exp = [(str(i * 10 + n), Term("data", i * 10 + n)) for n, s in enumerate(by[i]["kids"]) if s == st]
                    l = unjson(m.d[f].v) if f in m.d else CList()
                    g = [unjson(c.v) for c in l.items] if isinstance(l, CList) else [None]
                    if not all(isinstance(x, CMap) for x in g) or sorted([(str(norm_value(x.d["jobID"].v)), norm_value(x.d["data"].v)) for x in g], key=repr) != sorted(exp, key=repr):
                        return "%s of the answer is not exactly what it should be (children %s)" % (f, "/".join(by[i]["kids"]))
            return None
        C.check(sc, ("peek", "process"), judge, bool(hits), ("in a list, " if many else "") + what, tolerate=lambda w, I: all(f[0] == "write" and f[3][0] == "update" and [r0["jobid"] for r0 in w.table.rows if w.table.truth(f[3][3], r0)] == lost(w)[:1] for f in w.failed))
    PRIOS = (0, 250, 500, 750, 850, 1000)
    for many in (False, True):
        for st in STATES:
            scene("one %s" % st, [cand(71, st)], many)
            scene("one %s and a due one" % st, [cand(71, st), cand(72, at=9)], many, nofail=True)
            scene("one %s with retryAfter" % st, [cand(71, st, retry="+5 MINUTES")], many)
        for due in ("2026-06-15 12:00:00", "2026-06-15 11:59:59", ""):
            scene("due %s" % (due or "later"), [cand(71, due=due)], many)
        for a in PRIOS:
            scene("priority %d" % a, [cand(71, prio=a)], many, nofail=True)
            for b in PRIOS:
                if a != b:
                    for sw in (False, True):
                        scene("priorities %d and %d" % (a, b), [cand(71, prio=a), cand(72, prio=b)], many, nofail=True, swap=sw)
                        scene("priorities %d and %d, the first" % (a, b), [cand(71, prio=a), cand(72, prio=b)], many, limit="1", nofail=True, swap=sw)
            for sw in (False, True):
                scene("two of priority %d" % a, [cand(71, prio=a), cand(72, prio=a)], many, limit="1", nofail=True, swap=sw)
                scene("only priority %d" % a, [cand(71 + n, prio=x) for n, x in enumerate(PRIOS)] + [cand(78, prio=a), cand(79, prio=a)], many, limit="2", prio=str(a), nofail=True, swap=sw)
        for m in (None, "asked", "header"):
            scene("mocked and not, %s" % m, [cand(71, mock=True), cand(72)], many, mocked=m)
            scene("mocked, %s" % m, [cand(71, mock=True, prio=850)], many, mocked=m, prio="850")
        for nm in ("www-prod/*", "*", "www-prod/x", "www-prod/x, www-prod/y", "www-prod/[xy]", "WWW-PROD/*", "manual"):
            for pr in (None, "500"):
                scene("name %s" % nm, [cand(71, name="www-prod/x"), cand(72, name="www-prod/y"), cand(73, name="www-stag/x"), cand(74, name="manual")], many, name=nm, prio=pr, nofail=True)
        for cr in (("www-prod/bad*",), ("www-prod/bad*", "www-prod/ugly"), ("zzz*",)):
            for first in ("www-prod/bad1", "www-prod/x"):
                scene("crash pattern %s" % (cr,), [cand(71, name=first, retry="+1 HOUR" if first[-1] == "1" else ""), cand(72, name="www-prod/ugly"), cand(73, name="www-prod/bad2", due=""), cand(74, name="www-prod/y")], many, crashed=cr)
        for rep in ("", "SCHEDULED, +1 HOUR", "scheduled, +1 HOUR", "FINISHED, +1 DAY"):
            for nm in ("www-prod/x", "manual/y"):
                for count in (None, 0, 3, 9, 10, 11):
                    for cons in (False, True):
                        scene("retryAfter, count %s, repeat %r, %s" % (count, rep, nm), [cand(71, retry="+5 MINUTES", count=count, repeat=rep, name=nm)], many, name="*", prio="500" if count == 3 else None, constraint=cons and count in (None, 9),
                              nofail=rep.startswith("s") or count in (0, 3, 11), fails=2 if count is None else 1)
        for count in (9, 10, 11):
            scene("count %d without retryAfter" % count, [cand(71, count=count)], many)
        scene("several with and without retryAfter", [cand(71, retry="+5 MINUTES"), cand(72), cand(73, retry="+1 HOUR", count=10), cand(74, "RUNQUEUED", retry="+2 HOURS", count=4, repeat="SCHEDULED, +1 DAY"), cand(75, count=12)], many, constraint=True)
        for ks in (("FINISHED",), ("CANCELLED",), ("FINISHED", "CANCELLED", "FINISHED"), ("FAILED",), ("QUEUED", "RUNNING", "PAUSED", "FINISHED")):
            for ra in ("", "+5 MINUTES"):
                scene("children %s" % "/".join(ks), [cand(71, kids=ks, retry=ra), cand(72, parent=True, retry=ra)], many, nofail=True)
        scene("a child", [cand(71, parent=True, kids=("FINISHED",))], many)
        scene("nothing", [], many)
        for a in PRIOS:
            for nm in ("www-prod/*", "www-prod/x, www-prod/y"):
                for m in (None, "asked"):
                    for pr in (None, str(a)):
                        crowd = [cand(71 + n, s, prio=a) for n, s in enumerate(STATES)] + [cand(78, prio=a, due=""), cand(79, prio=a, mock=True), cand(80, prio=a, name="www-stag/x"), cand(81, "RUNQUEUED", prio=a, name="www-prod/y")]
                        scene("priority %d, all kinds, name %s, mocked %s%s" % (a, nm, m, ", asked for" if pr else ""), crowd, many, limit="20", name=nm, mocked=m, prio=pr, nofail=True, swap=a % 500 == 0)
    for n in ("0", "1", "2", "3", "10"):
        scene("%s of three" % n, [cand(71, at=5), cand(72, at=2), cand(73, at=8)], True, limit=n if n != "0" else "1", nofail=n not in ("1", "2"))
    return C


def unsent(ctx):
    """The jobs of an answer that could not be sent are queued again."""
    C = Checker(ctx, "queued again when the answer cannot be sent")
    j = lambda v: Str(Term("json", Box(v)))

    def job(i):
        m = CMap()
        m.d["jobID"] = Cell(Str(str(i)))
        m.d["name"] = Cell(Str("www-prod/x"))
        return j(m)
    for verb in ("GetJob", "GetJobs", "FinishJob", "CreateJob", "CancelJob"):
        for n in (0, 1, 2, 3):
            if verb == "GetJob" and n > 1:
                continue
            ids = list(range(71, 71 + n))
            if verb == "GetJobs":
                m = CMap()
                m.d["jobs"] = Cell(j(CList([job(i) for i in ids])))
                content = j(m)
            else:
                content = job(71) if n else Str("{}")
            sc = scenario(verb, others(), {"name": "www-prod/*", "requestID": "abc"}, answer={"response": Obj({"content": Cell(content)})}, closed=True)

            def judge(w, I):
                if verb not in ("GetJob", "GetJobs"):
                    return "a command is run" if w.sent else None
                if not w.sent and not ids:
                    return None
                if len(w.sent) != 1 or not isinstance(w.sent[0], Req) or w.sent[0].verb != "RequeueJobs":
                    return "%d commands are run" % len(w.sent)
                c = {k: norm_value(x.v) for k, x in w.sent[0].cells.items()}
                got = c.get("jobIDs")
                if not isinstance(got, str) or [x.strip() for x in got.split(",") if x.strip()] != [str(i) for i in ids]:
                    return "the jobs %r are queued again, the answer had %s" % (got, ids)
                return None
            C.check(sc, ("handleFailedReply",), judge, True, "%d jobs" % n)
    return C


def unjson(v):
    v = norm_value(v)
    return v.args[0].v if isinstance(v, Term) and v.fn == "json" and v.args and isinstance(v.args[0], Box) else v


@prop("C58")
def c58(ctx):
    notes = []
    for part in (handout, unsent):
        C = part(ctx)
        ctx.need(C.rule, 10)
        notes += C.notes
    for n in list(dict.fromkeys(notes))[:12]:
        ctx.undecided.append(n)


@prop("C59")
def c59(ctx):
    notes = []
    for part in (finish, cancel, simple, create):
        C = part(ctx)
        ctx.need(C.rule, 20)
        notes += C.notes
    for n in list(dict.fromkeys(notes))[:12]:
        ctx.undecided.append(n)
