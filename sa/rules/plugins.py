"""SQL text (C52)."""
from . import prop
from ..lib import *
from ..norm import nodes
from ..cases import *
from .stuff import bare

NUMERIC = re.compile(r"^(const )?(volatile )?(unsigned |signed )?(bool|short|int|long|long long|unsigned|float|double|std::atomic<.*>)( &)?$")
KEEP = {"std::move", "std::forward", "SToUpper", "SToLower", "STrim", "STrimLeft", "STrimRight"}
SAFECOLS = {"jobid", "parentjobid", "priority", "rowid", "count(1)", "count(*)", "1"}
FILL = {"push_back", "emplace_back", "push_front", "emplace_front", "insert", "emplace", "append", "assign", "+=", "=", "<<"}
N, Q, D = "outside quotes", "inside single quotes", "inside double quotes"


def lex(s, st):
    for ch in s:
        if st == N:
            st = Q if ch == "'" else D if ch == '"' else N
        elif st == Q and ch == "'":
            st = N
        elif st == D and ch == '"':
            st = N
    return st


def numeric(t):
    return bool(NUMERIC.match(t or "")) or (t or "").replace("const ", "").rstrip(" &") in ("size_t", "uint64_t", "int64_t", "uint32_t", "int32_t", "unsigned long", "unsigned int", "unsigned long long", "time_t")


def type_of(e):
    e = strip(e)
    if not isinstance(e, dict):
        return ""
    return {"int": "int", "bool": "bool", "float": "double", "enum": "int"}.get(e.get("k")) or e.get("t", "") or (type_of(e["x"]) if e.get("k") in ("bin", "cond") and isinstance(e.get("x"), dict) else type_of(e["e"]) if e.get("k") == "un" and isinstance(e.get("e"), dict) else "")


def plain(e):
    """The expression without the conversions to a string around it."""
    e = bare(e)
    while e and e.get("k") in ("ctor", "defarg"):
        a = [e["e"]] if e["k"] == "defarg" else [x for x in e.get("a", ()) if x.get("k") != "defarg"]
        if len(a) != 1:
            break
        e = bare(a[0])
    return e


class Defs:
    """Everything that can give a value to a variable, by file and variable id."""

    def __init__(self, p):
        self.p = p
        self.d = {}
        self.fn = {}
        self.reads = {}
        for f in p.fns.values():
            if not isinstance(f.get("body"), dict):
                continue
            for i, prm in enumerate(f.get("p") or ()):
                if prm.get("id"):
                    self.fn[(f["file"], prm["id"])] = (f, i)
            for x in nodes(f["body"]):
                self.visit(f, x)
            for x in f.get("inits") or ():
                if isinstance(x.get("e"), dict):
                    self.add(f, ("field", x.get("q")), "init", x["e"])
                    for y in nodes(x["e"]):
                        self.visit(f, y)

    @staticmethod
    def key(f, t):
        """Variables are known by file and id, fields by name."""
        if t and t.get("k") == "var" and t.get("id"):
            return (f["file"], t["id"])
        if t and t.get("k") == "mem":
            return ("field", t.get("q"))
        return None

    def add(self, f, i, kind, e):
        if i:
            self.d.setdefault(i, []).append((kind, e, f))

    def visit(self, f, x):
        k = x.get("k")
        if k == "decl":
            for v in x.get("v", ()):
                if v.get("bind") or v.get("binds"):
                    continue
                if isinstance(v.get("init"), dict):
                    self.add(f, (f["file"], v["id"]) if v.get("id") else None, "init", v["init"])
        elif k == "rangefor":
            v = x.get("v") or x.get("var") or {}
            if isinstance(v, dict):
                self.add(f, (f["file"], v["id"]) if v.get("id") else None, "element", x.get("range") or x.get("r"))
        elif k == "bin" and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            t = bare(x.get("x"))
            self.add(f, self.key(f, t), x["op"], x.get("y"))
        elif k in ("call", "icall"):
            n = x.get("op") or x.get("q", "").split("::")[-1]
            o = bare(x.get("obj"))
            if n in FILL and self.key(f, o):
                for a in x.get("a", ()):
                    if a.get("k") != "defarg":
                        self.add(f, self.key(f, o), n, a)
            elif n in ("<<", "=", "+=") and not o and x.get("a"):
                t = bare(x["a"][0])
                while t and t.get("k") == "call" and t.get("op") == "<<":
                    t = bare(t.get("obj") or t["a"][0])
                self.add(f, self.key(f, t), n, x["a"][-1])
            elif n in ("replace", "swap"):
                self.add(f, self.key(f, o), "other", x)
            for j, a in enumerate(x.get("a", ())):
                t = bare(a)
                if self.key(f, t) and not self.by_value(x, j):
                    self.add(f, self.key(f, t), "out", x)

    def by_value(self, x, j):
        """Is the argument passed where the callee cannot change it?"""
        g = self.p.fns.get(x.get("f"))
        if g and j < len(g.get("p") or ()):
            t = g["p"][j]["t"].strip()
            return not t.endswith(("&", "*")) or t.startswith("const ") or t.endswith("&&")
        m = re.search(r"\((.*)\)", x.get("f", ""))
        if x.get("q", "") in ("std::format", "std::to_string", "std::move", "std::forward"):
            return True
        if not m:
            return False
        depth, out, cur = 0, [], ""
        for ch in m.group(1):
            if ch in "<([{":
                depth += 1
            elif ch in ">)]}":
                depth -= 1
            if ch == "," and depth == 0:
                out.append(cur)
                cur = ""
            else:
                cur += ch
        out.append(cur)
        if j >= len(out):
            return True
        t = out[j].strip()
        return not t.endswith("&") or t.startswith("const ") or t.endswith("&&")


class Text:
    """Evaluates how a SQL text is put together. Problems are collected."""

    def __init__(self, ctx, defs):
        self.ctx, self.defs = ctx, defs
        self.p = ctx.p
        self.memo = {}
        self.params = {}          # (function, index) -> param-fed sinks found on the way
        self.problems = []
        self.values = 0

    def bad(self, f, e, why):
        self.problems.append((f, e, why))
        return {N}

    def where(self, f, e):
        return "%s:%s" % (f["file"], e.get("l", f["l"]) if isinstance(e, dict) else f["l"])

    def put(self, S, f, e, kind):
        """A piece of text that is complete outside quotes."""
        self.values += 1
        if S - {N}:
            self.bad(f, e, "a quoted value is inserted %s" % sorted(S - {N})[0])
        return {N}

    def ev(self, e, f, cx, S, d=0):
        S = set(S)
        e = bare(e) if bare(e) else strip(e)
        if not isinstance(e, dict) or d > 200:
            return self.bad(f, e or {}, "the text cannot be followed")
        k = e.get("k")
        if k == "str":
            return {lex(e["v"], s) for s in S}
        if k == "char":
            try:
                v = e.get("v")
                return {lex(v if isinstance(v, str) else chr(v), s) for s in S}
            except Exception:
                return S
        if k in ("int", "bool", "float", "enum"):
            return S
        if k == "defarg":
            return self.ev(e.get("e"), f, cx, S, d + 1)
        if k in ("cast", "paren", "tmp"):
            return self.ev(e.get("e"), f, cx, S, d + 1)
        if numeric(type_of(e)):
            return S
        if k == "cond":
            return self.ev(e["x"], f, cx, S, d + 1) | self.ev(e["y"], f, cx, S, d + 1)
        if k == "bin" and e.get("op") == "+":
            return self.ev(e["y"], f, cx, self.ev(e["x"], f, cx, S, d + 1), d + 1)
        if k in ("ctor", "init"):
            a = [x for x in e.get("a", e.get("e", ())) if isinstance(x, dict) and x.get("k") != "defarg"] if isinstance(e.get("a", e.get("e", ())), list) else []
            if a and (k == "init" or re.search(r"\b(list|vector|set|deque|initializer_list)<|\[[0-9]*\]$", e.get("t", ""))):
                for x in a:                       # the elements of a container
                    if numeric(type_of(x)):
                        continue
                    if self.ev(x, f, cx, {N}, d + 1) != {N}:
                        self.bad(f, x, "an element of a list leaves a quote open")
                return {N}
            if "basic_string" in e.get("t", "") + e.get("q", "") and "list<" not in e.get("t", "") and "vector<" not in e.get("t", ""):
                if not a:
                    return S
                if len(a) == 1:
                    return self.ev(a[0], f, cx, S, d + 1)
            elif "SString" in e.get("t", "") and len(a) == 1:
                return self.ev(a[0], f, cx, S, d + 1)
            elif not a:
                return S
            return self.bad(f, e, "the text is built by %s" % (e.get("q") or "a constructor"))
        if k == "call" or k == "icall":
            return self.call(e, f, cx, S, d)
        if k == "var":
            return self.var(e, f, cx, S, d)
        if k == "mem":
            return self.var(e, f, cx, S, d)
        if k == "idx":
            return self.column(e, f, S)
        return self.bad(f, e, "a value is inserted unquoted (%s)" % k)

    def call(self, e, f, cx, S, d):
        q = e.get("q", "")
        last = q.split("::")[-1]
        a = [x for x in e.get("a", ()) if isinstance(x, dict)]
        real = [x for x in a if x.get("k") != "defarg"]
        if e.get("op") == "+":
            for x in ([e["obj"]] if "obj" in e else []) + a:
                S = self.ev(x, f, cx, S, d + 1)
            return S
        if q == "SQ":
            if numeric(type_of(a[0])) and not re.search(r"basic_string|char", e.get("f", "")):
                return S
            return self.put(S, f, e, "SQ")
        if q == "SQList":
            return self.put(S, f, e, "SQList") if S - {N} else {N}
        if last in ("to_string", "SToStr"):
            if real and (numeric(type_of(real[0])) or not re.search(r"basic_string|char", type_of(real[0]) + re.sub(r"^[^(]*", "", e.get("f", "")))):
                return S
            return self.bad(f, e, "a value is inserted unquoted (SToStr of text)")
        if q == "SComposeTime":
            if S != {Q}:
                self.bad(f, e, "a time is inserted unquoted")
            return S
        if 'operator""s' in q and real:
            return self.ev(real[0], f, cx, S, d + 1)
        if q == "SEscape" and len(a) >= 3:
            un, es = plain(a[1]), plain(a[2])
            if un and un.get("k") == "str" and "'" in un["v"] and es and str(es.get("v")) in ("'", "39"):
                if S - {Q}:
                    self.bad(f, e, "an escaped value is inserted %s" % sorted(S - {Q})[0])
                return {Q}
            return self.bad(f, e, "a value is escaped, but not as SQL text")
        if q == "SComposeList":
            if self.list_of(a[0], f, cx, d) != {N} or (len(real) > 1 and self.ev(real[1], f, cx, {N}, d + 1) != {N}):
                self.bad(f, e, "an element of a list leaves a quote open")
            return self.put(S, f, e, q)
        if q in KEEP and real:
            return self.ev(real[0], f, cx, S, d + 1)
        if last in ("c_str", "data", "str", "substr", "view") and "obj" in e:
            return self.ev(e["obj"], f, cx, S, d + 1)
        if last == "operator basic_string" or last.startswith("operator ") and "obj" in e:
            return self.ev(e["obj"], f, cx, S, d + 1)
        if last in ("max", "min") and numeric(e.get("t", "")):
            return S
        if e.get("op") == "[]" or last == "operator[]" or last in ("at", "front", "back"):
            o = bare(e.get("obj")) or {}
            if re.search(r"SQResult", o.get("t", "")) or o.get("op") == "[]" or o.get("k") == "idx" or re.search(r"SQResult", e.get("f", "")):
                return self.column(e, f, S)
            if o.get("k") in ("var", "mem") and (last in ("front", "back", "at", "operator[]") or e.get("op") == "[]") and re.search(r"\b(list|vector|deque)<", o.get("t", "")):
                return self.list_of(o, f, cx, d)
            return self.bad(f, e, "the value of '%s' is inserted unquoted" % self.show(e))
        if q.endswith("operator()") or k_lambda(e):
            t = bare(e.get("obj")) or bare(e.get("e")) or {}
            g = self.lambda_of(t, f)
            if g:
                return self.body(g, e, a, f, cx, S, d)
        g = self.p.fns.get(e.get("f"))
        if g and isinstance(g.get("body"), dict) and not e.get("v"):
            return self.body(g, e, a, f, cx, S, d)
        return self.bad(f, e, "the result of %s is inserted unquoted" % (last or "a call"))

    def lambda_of(self, t, f):
        if t.get("k") == "lambda":
            return self.p.fns.get(t.get("f"))
        if t.get("k") == "var":
            for kind, e, _ in self.defs.d.get(Defs.key(f, t), ()):
                b = bare(e)
                for x in nodes(b):
                    if x.get("k") == "lambda":
                        return self.p.fns.get(x.get("f"))
        return None

    def body(self, g, e, a, f, cx, S, d):
        """A function of the project: what it returns, with its parameters bound to the arguments."""
        if d > 40 or any(g["id"] == s for s in cx.get("#stack", ())):
            return {N}
        c2 = dict(cx) if g.get("lambda") or str(g.get("id", "")).startswith("lambda@") else {}
        c2["#stack"] = tuple(cx.get("#stack", ())) + (g["id"],)
        for prm, x in zip(g.get("p") or (), a):
            c2[(g["file"], prm.get("id"))] = (x, f, cx)
        out = set()
        rets = [x["e"] for x in nodes(g["body"]) if x.get("k") == "return" and isinstance(x.get("e"), dict)]
        if not rets:
            return self.bad(f, e, "the result of %s is inserted unquoted" % g["q"])
        for r in rets:
            out |= self.ev(r, g, c2, S, d + 1)
        return out

    def list_of(self, e, f, cx, d):
        """The pieces a container is filled with: each must be complete."""
        e = bare(e)
        if e and e.get("k") == "var":
            if numeric(re.sub(r".*?<(.*?)[,>].*", r"\1", e.get("t", ""))):
                return {N}
            return self.var(e, f, cx, {N}, d, True)
        return self.ev(e, f, cx, {N}, d + 1)

    def var(self, e, f, cx, S, d, container=False):
        i = Defs.key(f, e) or ("?", e.get("n"))
        if i in cx:
            x, ff, c2 = cx[i]
            return self.ev(x, ff, c2, S, d + 1) if not container else self.list_of(x, ff, c2, d + 1)
        if e.get("vk") == "param" and i in self.defs.fn:
            g, n = self.defs.fn[i]
            for st in S:
                self.params.setdefault((g["id"], n, st), (f, e))
            for kind, x, ff in self.defs.d.get(i, ()):
                if kind not in ("out", "init"):
                    self.ev(x, ff, cx, {N}, d + 1)
            return S
        ds = self.defs.d.get(i, ())
        if i in GIVEN:
            ds = [x for x in ds if not (x[0] == "out" or (x[0] == "init" and x[2].get("isctor")))]
            if S != {N} or any(self.ev(x, ff, cx, {N}, d + 1) != {N} for kind, x, ff in ds):
                self.bad(f, e, "'%s' is inserted %s" % (e.get("n"), sorted(S)[-1]))
            return S
        if not ds:
            g = self.p.globals.get(e.get("q")) if hasattr(self.p, "globals") else None
            if isinstance(g, dict) and isinstance(g.get("init"), dict):
                return self.ev(g["init"], f, cx, S, d + 1)
            if re.search(r"basic_string|list<|vector<", e.get("t", "")) and e.get("vk") == "local" and not e.get("bind"):
                return S                            # never given a value
            return self.bad(f, e, "%s '%s' is inserted unquoted" % ("the field" if e.get("k") == "mem" else "the value of", e.get("n")))
        key = (i, tuple(sorted((str(a), id(b[0])) for a, b in cx.items() if isinstance(b, tuple) and len(b) == 3)))
        if key in self.memo:
            r = self.memo[key]
            if r == "text" and S - {N}:
                self.bad(f, e, "the text of '%s' is inserted %s" % (e.get("n"), sorted(S - {N})[0]))
            return S if r == "number" else {N}
        self.memo[key] = "number"                   # a definition that only repeats the variable adds nothing
        num = True
        for kind, x, ff in ds:
            if kind == "out" and bare(x) and bare(x).get("q", "").split("::")[-1] in ("snprintf", "sprintf") and self.printed(bare(x)):
                continue
            if kind == "out":
                t = bare(x)
                if t and t.get("q", "").split("::")[-1] in ("SParseList", "SParseCommandLine") or "SQResult" in e.get("t", ""):
                    self.bad(ff, x, "the value of '%s' is inserted unquoted" % e.get("n"))
                elif re.search(r"basic_string|list<|vector<", e.get("t", "")):
                    self.bad(ff, x, "'%s' is filled by %s and inserted unquoted" % (e.get("n"), (t or {}).get("q", "a call")))
                continue
            if kind == "other":
                self.bad(ff, x, "the text of '%s' is edited" % e.get("n"))
                continue
            if kind == "element":
                self.list_of(x, ff, cx, d + 1)
                num = False
                continue
            if numeric(type_of(x)):
                continue
            before = self.values
            r = self.ev(x, ff, cx, {N}, d + 1)
            b = bare(x)
            if r != {N}:
                self.bad(ff, x, "the text given to '%s' leaves a quote open" % e.get("n"))
            if not self.is_number(b, ff, cx):
                num = False
        self.memo[key] = "number" if num else "text"
        if not num and S - {N}:
            self.bad(f, e, "the text of '%s' is inserted %s" % (e.get("n"), sorted(S - {N})[0]))
        return S if num else {N}

    @staticmethod
    def printed(x):
        """A text printed from a literal format and numbers."""
        for y in x.get("a", ())[1:3]:
            y = bare(y)
            if y and y.get("k") == "str":
                return not re.search(r"['\"]", y["v"]) and not re.search(r"%(?!-?[0-9]*(l|ll|z)?[diux])", y["v"])
        return False

    def is_number(self, e, f, cx):
        if not e:
            return False
        if numeric(type_of(e)) or e.get("k") in ("int", "bool"):
            return True
        if e.get("k") == "str":
            return bool(re.match(r"^[0-9]*$", e["v"]))
        if e.get("k") == "cond":
            return self.is_number(bare(e["x"]), f, cx) and self.is_number(bare(e["y"]), f, cx)
        q = e.get("q", "").split("::")[-1]
        a = e.get("a") or [{}]
        return q in ("SQ", "to_string", "SToStr") and numeric(type_of(a[0]))

    def column(self, e, f, S):
        """A column of a result: only a column that holds integers may be inserted as it is."""
        i = None
        t = e
        idx = []
        while t and (t.get("op") == "[]" or t.get("k") == "idx" or t.get("q", "").split("::")[-1] in ("at", "front", "operator[]")):
            a = (t.get("a") or [None])[-1] if t.get("k") != "idx" else t.get("i") or t.get("y")
            idx.append(bare(a) if a else None)
            t = bare(t.get("obj") or t.get("x") or (t.get("a") or [None])[0])
        if t and t.get("k") == "var" and idx:
            n = idx[0]
            ds = [x for kind, x, ff in self.defs.d.get(Defs.key(f, t), ()) if kind in ("out", "init", "element")]
            if len(idx) == 1:                      # a row of the result
                ds2 = []
                for kind, x, ff in self.defs.d.get(Defs.key(f, t), ()):
                    b = bare(x)
                    while b and (b.get("op") == "[]" or b.get("k") == "idx"):
                        b = bare(b.get("obj") or b.get("x"))
                    if kind in ("element", "init") and b and b.get("k") == "var":
                        ds2 += [y for k2, y, _ in self.defs.d.get(Defs.key(f, b), ()) if k2 == "out"]
                ds = ds2
            reads = [x for x in ds if isinstance(x, dict) and x.get("k") == "call"]
            cols = [self.columns(x, f) for x in reads]
            if n and n.get("k") == "int" and cols and all(c and int(n["v"]) < len(c) and c[int(n["v"])] in SAFECOLS for c in cols):
                return S
        return self.bad(f, e, "a value read from the database is inserted unquoted")

    def columns(self, x, f):
        """The columns of the SELECT that filled a result."""
        for a in x.get("a", ()):
            for s in self.leading(a, f):
                m = re.match(r"\s*SELECT\s+(?:DISTINCT\s+)?(.*?)\s+FROM\s", s, re.I | re.S)
                if m:
                    return [c.strip().lower() for c in m.group(1).split(",")]
        return None

    def leading(self, e, f, d=0):
        e = bare(e)
        if not e or d > 150:
            return []
        if e.get("k") == "str":
            return [e["v"]]
        if e.get("op") == "+":
            a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
            return self.leading(a[0], f, d + 1) if a else []
        if e.get("k") == "ctor" and e.get("a"):
            return self.leading(e["a"][0], f, d + 1)
        if e.get("k") == "cond":
            l = [self.leading(e["x"], f, d + 1), self.leading(e["y"], f, d + 1)]
            cols = {re.sub(r"(?is)\s+FROM\s.*", "", s[0]) if s else None for s in l}
            return l[0] if len(cols) == 1 and None not in cols else []
        if e.get("k") == "var":
            l = [self.leading(x, ff, d + 1) for kind, x, ff in self.defs.d.get(Defs.key(f, e), ()) if kind in ("init", "=")]
            l = [x for x in l if x and x[0] != ""] if any(x and x[0] != "" for x in l) and all(x or self.empty(y) for x, y in zip(l, [y for kind, y, ff in self.defs.d.get(Defs.key(f, e), ()) if kind in ("init", "=")])) else []
            cols = {re.sub(r"(?is)\s+FROM\s.*", "", s[0]) if s else None for s in l}
            return l[0] if len(cols) == 1 and None not in cols else []
        return []

    @staticmethod
    def empty(e):
        e = bare(e)
        return bool(e) and e.get("k") in ("ctor", "init") and not [x for x in e.get("a", ()) if x.get("k") != "defarg"]

    @staticmethod
    def show(e):
        o = bare(e.get("obj") or (e.get("a") or [None])[0]) or {}
        a = bare((e.get("a") or [None])[-1]) or {}
        return "%s[%s]" % (o.get("n", "…"), a.get("v", "…"))


def k_lambda(e):
    return e.get("k") == "icall"


# statements that somebody else wrote, and that are run as they are
GIVEN = {
    ("field", "BedrockDBCommand::query"): "the statement of the Query command",
    ("field", "SQLite::_rewrittenQuery"): "the statement that the rewrite handler gave",
}
JOURNAL = "SQLite::writeUnmodified"      # replays the statements of the leader's journal
SINKS = {"SQuery": 1, "sqlite3_exec": 1, "sqlite3_prepare_v2": 1, "sqlite3_prepare_v3": 1, "sqlite3_prepare": 1}


def sql_text(ctx):
    rule = "a value enters the text of a statement only as a quoted literal or a number"
    p = ctx.p
    defs = Defs(p)
    tx = Text(ctx, defs)
    todo, seen = [], set()

    def sinks_in(match, n, via, S):
        for f in p.fns.values():
            if not isinstance(f.get("body"), dict) or f["q"] == "SQuery":
                continue
            for e in nodes([f["body"], [x.get("e") for x in f.get("inits") or ()]]):
                if e.get("k") == "call" and match(e) and len(e.get("a", ())) > n:
                    todo.append((f, e, n, via, S))
    for q, n in SINKS.items():
        sinks_in(lambda e: e.get("q") == q, n, q, N)
    i = 0
    while i < len(todo):
        f, e, n, via, S = todo[i]
        i += 1
        k = (f["id"], id(e), n, S)
        if k in seen:
            continue
        seen.add(k)
        tx.problems, tx.params, tx.memo = [], {}, {}
        end = tx.ev(e["a"][n], f, {}, {S})
        if end != {S} and S == N:
            tx.bad(f, e, "the statement ends inside a quote")
        ctx.fns.add(f["q"])
        ctx.ok(rule, "%s at %s:%s" % (via, f["file"], e.get("l")))
        for gid, j, st in tx.params:
            g = p.fns[gid]
            if (gid, j, st) in seen:
                continue
            seen.add((gid, j, st))
            over = {gid} | {h["id"] for h in p.fns.values() if gid in h.get("over", ())} | set(g.get("over", ()))
            sinks_in(lambda e: e.get("f") in over, j, g["q"], st)
        if via == JOURNAL:
            continue
        for ff, x, why in tx.problems:
            yield f, e, ff, x, why, via, tx
    ctx.need(rule, 150)


CHARS = [1, 8, 9, 10, 12, 13, 31, 32, 34, 39, 47, 92, 97, 98, 110, 127, -61]
LETTER = {8: "b", 12: "f", 10: "n", 13: "r", 9: "t"}


def escapes(ctx):
    """What SEscape emits for each class of characters, one loop round at a time."""
    rule = "an escaped text holds every character once, with the escape before each unsafe one"
    p = ctx.p
    fs = [f for f in p.fns.values() if f["q"] == "SEscape" and isinstance(f.get("body"), dict) and len(f["p"]) == 3]
    main = [f for f in fs if any(e.get("k") == "call" and e.get("op") == "+=" for e in fn_exprs(f))]
    ctx.require(len(main) == 1, "the SEscape that does the work is not recognised")
    f = main[0]
    g = ctx.graph(f)
    text, unsafe, esc = [x["n"] + "#0" for x in f["p"]]
    pairs = {("'", 39), ("\r\n\t", 92)}
    for h in p.fns.values():
        if isinstance(h.get("body"), dict):
            for e in nodes(h["body"]):
                if e.get("k") == "call" and e.get("q") == "SEscape" and len(e.get("a", ())) >= 3:
                    u, c = plain(e["a"][1]), plain(e["a"][2])
                    if u and c and u.get("k") == "str" and c.get("k") in ("char", "int"):
                        try:
                            pairs.add((u["v"], int(c["v"])))
                        except ValueError:
                            pass
    for un, es in sorted(pairs):
        codes = {(ord(c) if ord(c) < 128 else ord(c) - 256) for c in un}
        for ch in CHARS:
            def pos(toks):
                return next(t[1] for t in toks if t[0] == "pos")
            def leaf(e, fr, g_):
                toks = C.now
                if e.get("k") == "var" and "*" not in e.get("t", "*") and g_.canon(e, fr) == text:     # a reference to the character
                    i = pos(toks)
                    return ch if i == 0 else 0 if i == 1 else None
                if e.get("k") == "un" and e.get("op") == "*" or e.get("k") == "idx":
                    base = e.get("e") if e["k"] == "un" else e.get("x")
                    off = 0
                    b = bare(base)
                    if e["k"] == "idx":
                        off = value(e.get("y") or e.get("i"), fr, g_, toks, leaf)
                    while b and b.get("k") == "bin" and b.get("op") == "+":
                        o = value(b["y"], fr, g_, toks, leaf)
                        off = None if o is None or off is None else off + o
                        b = bare(b["x"])
                    if b and b.get("k") == "un" and b.get("op") in ("++",):
                        b = bare(b["e"])
                    if b and off is not None and g_.canon(b, fr) == text:
                        i = pos(toks) + off
                        return ch if i == 0 else 0 if i == 1 else None
                if e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("find", "find_first_of", "contains") and "obj" in e and g_.canon(e["obj"], fr) == unsafe:
                    c = value(e["a"][0], fr, g_, toks, leaf)
                    if c is None:
                        return None
                    if e["q"].endswith("contains"):
                        return int(c in codes)
                    return 0 if c in codes else -1
                if e.get("k") == "call" and e.get("q") == "SContains" and g_.canon(e["a"][0], fr) == unsafe:
                    c = value(e["a"][1], fr, g_, toks, leaf)
                    return None if c is None else int(c in codes)
                if e.get("n") == "npos" or str(e.get("q", "")).endswith("::npos"):
                    return -1
                if e.get("k") == "var" and g_.canon(e, fr) == esc:
                    return es
                return None

            def ev(n, toks, facts, x):
                e = n.e
                if n.k in ("assign", "call") and isinstance(e, dict):
                    if e.get("k") == "un" and e["op"] in ("++", "--") and g.canon(e["e"], n.fr) == text:
                        i = pos(toks)
                        return put(toks, ("pos", i + (1 if e["op"] == "++" else -1)))
                    if e.get("k") == "bin" and e["op"] == "+=" and g.canon(e["x"], n.fr) == text:
                        v = value(e["y"], n.fr, g, toks, leaf)
                        return put(toks, ("pos", pos(toks) + (v if v is not None else 99)))
                    if e.get("q", "").split("::")[-1] in ("sprintf", "snprintf"):
                        a = [y for y in e["a"] if isinstance(y, dict)]
                        fm = next((bare(y)["v"] for y in a[1:3] if bare(y) and bare(y).get("k") == "str"), None)
                        v = value(a[-1], n.fr, g, toks, leaf)
                        if fm is not None and v is not None:
                            try:
                                return put(toks, ("buf", g.canon(a[0], n.fr), fm % v))
                            except (TypeError, ValueError):
                                pass
                    last = e.get("op") if e.get("op") == "+=" else e.get("q", "").split("::")[-1]
                    if e.get("k") == "call" and last in ("+=", "push_back", "append") and "obj" in e and "basic_string" in (strip(e["obj"]).get("t", "")):
                        a = [y for y in e["a"] if y.get("k") != "defarg"][-1]
                        b = bare(a)
                        s = None
                        if b and b.get("k") == "str":
                            s = b["v"]
                        else:
                            s = next((t[2] for t in toks if t[0] == "buf" and t[1] == g.canon(a, n.fr)), None)
                            if s is None:
                                v = value(a, n.fr, g, toks, leaf)
                                s = None if v is None else chr(v % 256)
                        out = next((t[1] for t in toks if t[0] == "out"), "")
                        return put(frozenset(t for t in toks if t[0] != "out"), ("out", "?" if s is None or out == "?" else out + s))
                return toks

            def put(toks, t):
                return frozenset(x for x in toks if x[0] != t[0] or (t[0] == "buf" and x[1] != t[1])) | {t}

            def edges(n, lab, m, toks):
                return toks if pos(toks) <= 1 else STOP
            C = Cases(ctx, g, lambda *a: False, leaf, ev, edges=edges)
            r = C.run([m for m, _ in g.entry.succ], frozenset(), frozenset({("pos", 0), ("out", "")}))
            c = chr(ch % 256)
            if ch in codes or ch == es:
                want = chr(es) + (LETTER.get(ch) or ("u%04x" % ch if 0 < ch < 32 or ch == 127 else c))
            else:
                want = c
            got = {(next((t[1] for t in toks if t[0] == "out"), ""), pos(toks)) for kind, n, toks, facts in r if kind == "exit"}
            ctx.ok(rule, "character %d, unsafe %r" % (ch, un))
            if any(o == "?" or "?" in o and "?" not in want for o, i in got):
                ctx.notes.append("SEscape: what is emitted for character %d is not understood" % ch)
                continue
            for o, i in got:
                if o != want or i != 1:
                    ctx.bad(rule, f["q"], "char %d with escape %d" % (ch, es), "%s:%s" % (f["file"], f["l"]),
                            "for character %d (unsafe %r, escape %r) SEscape emits %r and takes %d character(s); expected %r" % (ch, un, chr(es), o, i, want))
            if not got:
                ctx.bad(rule, f["q"], "char %d never ends" % ch, "%s:%s" % (f["file"], f["l"]), "SEscape does not end for character %d" % ch)
    for h in fs:
        if h is f:
            continue
        for e in fn_exprs(h):
            if e.get("k") == "call" and e.get("q") == "SEscape":
                for i, a in enumerate(e["a"]):
                    b = bare(a) or {}
                    if i == 0 and b.get("k") == "call":
                        b = bare(b.get("obj")) or {}
                    if b.get("id") != h["p"][i]["id"]:
                        ctx.bad(rule, h["q"], "argument %d" % i, "%s:%s" % (h["file"], e.get("l")), "SEscape(string) passes something else as its argument %d" % i)


def quoting(ctx):
    rule = "SQ gives its whole argument as one quoted literal or as the number, SQList gives only such pieces"
    p = ctx.p
    tx = Text(ctx, Defs(p))
    seen = set()
    for f in p.fns.values():
        if f["q"] not in ("SQ", "SQList", "STIMESTAMP", "STIMESTAMP_MS", "SCURRENT_TIMESTAMP", "SCURRENT_TIMESTAMP_MS") or not isinstance(f.get("body"), dict):
            continue
        ctx.ok(rule, f["id"][:60])
        prm = f["p"][0]["id"] if f["p"] else None
        if f["q"] == "SQ":
            seen.add("text" if re.search("basic_string|char", f["p"][0]["t"]) else "number")
        rets = [x["e"] for x in nodes(f["body"]) if x.get("k") == "return" and isinstance(x.get("e"), dict)]
        ctx.require(rets, "%s returns nothing" % f["q"])
        for r in rets:
            tx.problems, tx.params, tx.memo = [], {}, {}
            if f["q"] == "SQ":
                whole = whole_argument(tx, r, f, prm)
                if whole:
                    ctx.bad(rule, f["q"], whole, "%s:%s" % (f["file"], r.get("l", f["l"])), "SQ(%s): %s" % (f["p"][0]["t"].replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string"), whole))
                continue
            if f["q"].startswith(("STIMESTAMP", "SCURRENT")):
                continue                        # seen where they are used: their text is followed from there
            end = tx.ev(r, f, {}, {N})
            for ff, x, why in tx.problems:
                ctx.bad(rule, f["q"], why, "%s:%s" % (ff["file"], (x or {}).get("l", ff["l"])), "%s: %s" % (f["q"], why))
            if end != {N}:
                ctx.bad(rule, f["q"], "open", "%s:%s" % (f["file"], f["l"]), "%s leaves a quote open" % f["q"])
    ctx.require(seen == {"text", "number"}, "the SQ functions are not recognised")


def whole_argument(tx, e, f, prm, d=0):
    """None when the expression is the literal (or the number) of the whole parameter, else what is wrong."""
    e = bare(e)
    is_param = lambda x: bool(bare(x)) and (bare(x).get("id") == prm or bare(x).get("q", "").split("::")[-1] in ("c_str", "data") and (bare(bare(x).get("obj")) or {}).get("id") == prm)
    while e and e.get("k") == "ctor" and len([x for x in e.get("a", ()) if x.get("k") != "defarg"]) == 1:
        e = bare(e["a"][0])
    if not e:
        return "what it returns is not understood"
    if e.get("k") == "var" and e.get("vk") != "param":
        ds = tx.defs.d.get(Defs.key(f, e), ())
        pieces = []
        for kind, x, ff in ds:
            if kind in ("init", "=", "+=", "append", "push_back", "insert"):
                pieces.append(x)
            else:
                return "what it returns is not understood"
        return concat(tx, pieces, f, is_param)
    if e.get("k") == "call" and e.get("q") == "SQ":
        return None if is_param(e["a"][0]) else "it does not quote its argument"
    if e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("SToStr", "to_string"):
        if re.search("basic_string|char", f["p"][0]["t"]):
            return "a text is not quoted"
        return None if is_param(e["a"][0]) else "it does not give the number it was given"
    return concat(tx, [e], f, is_param)


def concat(tx, pieces, f, is_param):
    flat = []

    def go(e):
        e = bare(e) or {}
        if e.get("op") == "+":
            for x in ([e["obj"]] if "obj" in e else []) + e.get("a", []):
                go(x)
        elif e.get("k") == "ctor":
            a = [x for x in e.get("a", ()) if x.get("k") != "defarg"]
            if len(a) == 1:
                go(a[0])
            elif a:
                flat.append(e)
        else:
            flat.append(e)
    for x in pieces:
        go(x)
    if len(flat) != 3:
        return "it is not one literal"
    q = lambda x: x.get("k") == "str" and x["v"] == "'" or x.get("k") == "char" and str(x.get("v")) in ("39", "'")
    m = flat[1]
    if not q(flat[0]) or not q(flat[2]):
        return "it does not put the value between single quotes"
    if m.get("q") != "SEscape":
        return "it does not escape the value"
    u, c = plain(m["a"][1]) or {}, plain(m["a"][2]) or {}
    if "'" not in u.get("v", "") or set(u.get("v", "")) - {"'"} or str(c.get("v")) not in ("39", "'"):
        return "it does not double the single quotes of the value"
    return None if is_param(m["a"][0]) else "it does not quote its argument"


def client_statements(ctx, tx):
    """Statements that a protocol writes and hands to the Query command."""
    for f in ctx.p.fns.values():
        if not isinstance(f.get("body"), dict):
            continue
        for e in nodes(f["body"]):
            if e.get("k") == "call" and e.get("op") == "=" and "obj" in e and e.get("a"):
                o = bare(e["obj"]) or {}
                k = bare((o.get("a") or [None])[-1]) or {}
                while k.get("k") == "ctor" and k.get("a"):
                    k = bare(k["a"][0]) or {}
                if (o.get("op") == "[]" or o.get("q", "").endswith("operator[]")) and k.get("k") == "str" and k["v"].lower() == "query":
                    yield f, e


@prop("C52")
def c52(ctx):
    rule = "a value enters the text of a statement only as a quoted literal or a number"
    for f, e, ff, x, why, via, tx in sql_text(ctx):
        l = (x or {}).get("l") or e.get("l")
        ctx.bad(rule, ff["q"], why, "%s:%s" % (ff["file"], l), "%s (in the statement that %s gives to %s)" % (why, f["q"], via), ["%s:%s %s" % (f["file"], e.get("l"), via)])
    tx = Text(ctx, Defs(ctx.p))
    for f, e in client_statements(ctx, tx):
        a = e["a"][0]
        lead = tx.leading(a, f)
        if not lead or not re.match(r"\s*(SELECT|INSERT|UPDATE|DELETE|REPLACE|WITH|PRAGMA|CREATE|DROP|ALTER|EXPLAIN)\b", lead[0], re.I):
            continue
        tx.problems, tx.params, tx.memo = [], {}, {}
        end = tx.ev(a, f, {}, {N})
        if end != {N}:
            tx.bad(f, a, "the statement ends inside a quote")
        ctx.ok(rule, "a statement for the Query command at %s:%s" % (f["file"], e.get("l")))
        for ff, x, why in tx.problems:
            l = (x or {}).get("l") or e.get("l")
            ctx.bad(rule, ff["q"], why, "%s:%s" % (ff["file"], l), "%s (in the statement that %s writes for the Query command)" % (why, f["q"]))
    escapes(ctx)
    quoting(ctx)
