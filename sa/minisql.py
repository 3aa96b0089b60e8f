"""A table of abstract rows and the statements the analysed code composes over it: values are literals, numbers or opaque terms."""
import re, fnmatch
from .absint import Str, Term, Give

TOKEN = re.compile(r"\s+|([A-Za-z_][A-Za-z_0-9.]*)|(\d+)|('(?:[^']|'')*')|(\"[^\"]*\")|(<=|>=|<>|!=|==|\|\||[-+*/(),;=<>.])")
KEYWORDS = {"SELECT", "FROM", "WHERE", "AND", "OR", "NOT", "IN", "IS", "NULL", "ORDER", "BY", "LIMIT", "UNION", "ALL", "ASC", "DESC", "SET", "UPDATE", "DELETE", "INSERT", "INTO", "VALUES", "GLOB", "LIKE",
            "AS", "OFFSET", "GROUP", "BETWEEN", "REPLACE", "DISTINCT", "CONFLICT", "ON"}


def tokens(s):
    out = []
    for x in s.p:
        if isinstance(x, Term):
            if x.fn == "quoted":
                out.append(("val", x.args[0]))
            elif x.fn == "quotedlist":
                out.append(("vals", x))
            elif x.fn == "sqltext":
                out += x.args[0]
            else:
                out.append(("val", x))
            continue
        i = 0
        while i < len(x):
            m = TOKEN.match(x, i)
            if not m:
                raise Give("the statement '%s' cannot be read at '%s'" % (x[:60], x[i:i + 10]))
            i = m.end()
            w, num, q, dq, op = m.groups()
            if w:
                out.append(("kw", w.upper()) if w.upper() in KEYWORDS else ("id", w))
            elif num:
                out.append(("val", int(num)))
            elif q:
                out.append(("val", Str(q[1:-1].replace("''", "'"))))
            elif dq:
                out.append(("val", Str(dq[1:-1])))
            elif op:
                out.append(("op", op))
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, *w):
        if self.i >= len(self.t):
            return False
        k, v = self.t[self.i]
        return k in ("kw", "op") and v in w

    def take(self, *w):
        if self.peek(*w):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def want(self, w):
        if not self.take(w):
            raise Give("expected %s at %r" % (w, self.t[self.i:self.i + 3]))

    def ident(self):
        k, v = self.t[self.i] if self.i < len(self.t) else (None, None)
        if k != "id":
            raise Give("expected a name at %r" % (self.t[self.i:self.i + 3],))
        self.i += 1
        return v

    def statement(self):
        if self.peek("SELECT"):
            r = self.select()
        elif self.take("UPDATE"):
            t = self.ident()
            self.want("SET")
            sets = []
            while True:
                c = self.ident()
                self.want("=")
                sets.append((c.lower(), self.expr()))
                if not self.take(","):
                    break
            r = ("update", t.lower(), sets, self.where())
        elif self.take("DELETE"):
            self.want("FROM")
            t = self.ident()
            r = ("delete", t.lower(), self.where())
        elif self.take("INSERT", "REPLACE"):
            rep = self.t[self.i - 1][1] == "REPLACE"
            if self.take("OR"):
                self.want("REPLACE")
                rep = True
            self.want("INTO")
            t = self.ident()
            cols = []
            if self.take("("):
                cols = [self.ident().lower()]
                while self.take(","):
                    cols.append(self.ident().lower())
                self.want(")")
            self.want("VALUES")
            rows = []
            while True:
                self.want("(")
                vs = [self.expr()]
                while self.take(","):
                    vs.append(self.expr())
                self.want(")")
                rows.append(vs)
                if not self.take(","):
                    break
            ups = None
            if self.take("ON"):
                self.want("CONFLICT")
                key = []
                if self.take("("):
                    while not self.take(")"):
                        key.append(self.ident().lower())
                        self.take(",")
                if self.ident().upper() != "DO":
                    raise Give("DO")
                if not self.take("UPDATE"):
                    if self.ident().upper() != "NOTHING":
                        raise Give("ON CONFLICT")
                    ups = (key, None, None)
                else:
                    self.want("SET")
                    sets = []
                    while True:
                        c = self.ident()
                        self.want("=")
                        sets.append((c.lower(), self.expr()))
                        if not self.take(","):
                            break
                    ups = (key, sets, self.where())
            r = ("insert", t.lower(), cols, rows, rep, ups)
        else:
            raise Give("statement %r" % (self.t[self.i:self.i + 3],))
        while self.take(";"):
            pass
        if self.i != len(self.t):
            raise Give("text after the statement: %r" % (self.t[self.i:self.i + 3],))
        return r

    def where(self):
        return self.expr() if self.take("WHERE") else None

    def select(self):
        arms = [self.core()]
        while self.take("UNION"):
            self.want("ALL")
            arms.append(self.core())
        order, limit = self.tail()
        return ("select", arms, order, limit)

    def tail(self):
        order, limit = [], None
        if self.take("ORDER"):
            self.want("BY")
            while True:
                c = self.expr()
                d = self.take("ASC", "DESC") or "ASC"
                order.append((c, d))
                if not self.take(","):
                    break
        if self.take("LIMIT"):
            limit = self.expr()
        return order, limit

    def core(self):
        self.want("SELECT")
        self.take("DISTINCT")
        cols = [self.col()]
        while self.take(","):
            cols.append(self.col())
        src = None
        if self.take("FROM"):
            if self.take("("):
                src = self.select()
                self.want(")")
            else:
                src = self.ident().lower()
            if self.i < len(self.t) and self.t[self.i][0] == "id":
                self.ident()
        return (cols, src, self.where())

    def col(self):
        if self.take("*"):
            return "*"
        e = self.expr()
        if self.take("AS") or self.i < len(self.t) and self.t[self.i][0] == "id":
            return ("as", e, self.ident().lower())
        return e

    def expr(self):
        e = self.conj()
        while self.take("OR"):
            e = ("or", e, self.conj())
        return e

    def conj(self):
        e = self.neg()
        while self.take("AND"):
            e = ("and", e, self.neg())
        return e

    def neg(self):
        if self.take("NOT"):
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            op = self.take("=", "==", "!=", "<>", "<", ">", "<=", ">=")
            if op:
                a = ("cmp", {"==": "=", "<>": "!="}.get(op, op), a, self.add())
                continue
            if self.take("IS"):
                n = bool(self.take("NOT"))
                if self.take("NULL"):
                    e = ("null", a)
                    a = ("not", e) if n else e
                    continue
                raise Give("IS")
            n = bool(self.take("NOT"))
            if self.take("IN"):
                self.want("(")
                if self.peek("SELECT"):
                    vs = self.select()
                else:
                    vs = []
                    while not self.peek(")"):
                        vs.append(self.expr())
                        if not self.take(","):
                            break
                self.want(")")
                e = ("in", a, vs)
                a = ("not", e) if n else e
                continue
            kind = self.take("GLOB", "LIKE")
            if kind:
                e = (kind.lower(), a, self.add())
                a = ("not", e) if n else e
                continue
            if n:
                raise Give("NOT")
            return a

    def add(self):
        a = self.unary()
        while True:
            op = self.take("+", "-", "*", "/", "||")
            if not op:
                return a
            a = ("arith", op, a, self.unary())

    def unary(self):
        if self.take("+"):
            return self.unary()
        if self.take("-"):
            return ("arith", "-", ("val", 0), self.unary())
        if self.take("("):
            e = self.select() if self.peek("SELECT") else self.expr()
            self.want(")")
            return ("sub", e) if e[0] == "select" else e
        if self.take("NULL"):
            return ("val", None)
        if self.i >= len(self.t):
            raise Give("end of the statement")
        k, v = self.t[self.i]
        self.i += 1
        if k in ("val", "vals"):
            return (k, v)
        if k == "kw" and v == "REPLACE":
            k = "id"
        if k == "id":
            if self.take("("):
                a = []
                while not self.peek(")"):
                    if self.take("*"):
                        a.append(("val", 1))
                    else:
                        self.take("DISTINCT")
                        a.append(self.expr())
                    if not self.take(","):
                        break
                self.want(")")
                return ("fn", v.upper(), a)
            return ("col", v.lower() if v.lower().startswith("excluded.") else v.split(".")[-1].lower())
        raise Give("unexpected %r" % (v,))


def norm(v):
    if isinstance(v, Str):
        if v.lit is not None:
            return v.lit
        if len(v.p) == 1:
            return v.p[0]
    return v


class Unknown(Give):
    pass


class Table:
    """Rows: {column: literal str, int, None or Term}. ask(term): decides a comparison that is not determined."""

    def __init__(self, name, rows, ask=None, json=None, others=None, keys=(), changed=None):
        """others: more tables {name: rows}; keys: unique columns of the main table; changed(event, old, new): called for every changed row."""
        self.name, self.rows, self.ask = name, rows, ask
        self.json = json or {}
        self.others, self.keys, self.changed = others or {}, keys, changed or (lambda *a: None)

    def of(self, name):
        if name == self.name:
            return self.rows
        if name not in self.others:
            raise Unknown("table %s" % name)
        return self.others[name]

    def value(self, e, row):
        k = e[0]
        if k == "val":
            return norm(e[1])
        if k == "col":
            if row is None or e[1] not in row:
                raise Unknown("column %s" % e[1])
            return row[e[1]]
        if k in ("cmp", "and", "or", "not", "in", "null", "glob", "like"):
            return int(self.truth(e, row))
        if k == "sub":
            rs = self.select(e[1], row)
            return rs[0][0] if rs else None
        if k == "fn":
            return self.fn(e, row)
        if k == "arith":
            a, b = self.value(e[2], row), self.value(e[3], row)
            if isinstance(a, int) and isinstance(b, int) and e[1] in "+-*":
                return a + b if e[1] == "+" else a - b if e[1] == "-" else a * b
            return Term("sql:" + e[1], a, b)
        raise Unknown("expression %s" % k)

    def fn(self, e, row):
        n, a = e[1], e[2]
        if n == "JSON_EXTRACT" and len(a) == 2 and row is not None:
            d, path = self.value(a[0], row), self.value(a[1], row)
            if isinstance(d, Term) and d in self.json and isinstance(path, str):
                return self.json[d].get(path[2:])
            if d == "{}" and isinstance(path, str):
                return None
        vs = [self.value(x, row) for x in a]
        if n == "COALESCE":
            for v in vs:
                if isinstance(v, Term):
                    return Term("sql:COALESCE", *vs)
                if v is not None:
                    return v
            return None
        if n in ("UPPER", "LOWER") and isinstance(vs[0], str):
            return vs[0].upper() if n == "UPPER" else vs[0].lower()
        return Term("sql:" + n, *vs)

    def compare(self, op, a, b):
        if a is None or b is None:
            return False
        if isinstance(a, str) and isinstance(b, int) and re.fullmatch(r"-?\d+", a):
            a = int(a)
        if isinstance(b, str) and isinstance(a, int) and re.fullmatch(r"-?\d+", b):
            b = int(b)
        if isinstance(a, Term) or isinstance(b, Term):
            if op in ("=", "!="):
                if a == b:
                    return op == "="
                if self.ask:
                    r = self.ask(Term("==", *sorted((a, b), key=repr)))
                    return bool(r) == (op == "=")
            elif self.ask:
                return bool(self.ask(Term(op, a, b)))
            raise Unknown("comparison of %r and %r" % (a, b))
        if type(a) is not type(b):
            if op in ("=", "!="):
                return op == "!="
            a, b = int(isinstance(a, str)), int(isinstance(b, str))
        return {"=": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    def truth(self, e, row):
        if e is None:
            return True
        k = e[0]
        if k == "and":
            return self.truth(e[1], row) and self.truth(e[2], row)
        if k == "or":
            return self.truth(e[1], row) or self.truth(e[2], row)
        if k == "not":
            return not self.truth(e[1], row)
        if k == "cmp":
            return self.compare(e[1], self.value(e[2], row), self.value(e[3], row))
        if k == "null":
            v = self.value(e[1], row)
            if isinstance(v, Term):
                return bool(self.ask(Term("null", v)))
            return v is None
        if k == "in":
            a = self.value(e[1], row)
            if isinstance(e[2], tuple):
                vs = [r[0] for r in self.select(e[2], row)]
            else:
                vs = []
                for x in e[2]:
                    if x[0] == "vals":
                        raise Unknown("a list that is not known")
                    vs.append(self.value(x, row))
            return any(self.compare("=", a, v) for v in vs)
        if k == "glob":
            a, b = self.value(e[1], row), self.value(e[2], row)
            if isinstance(a, str) and isinstance(b, str):
                return fnmatch.fnmatchcase(a, b)
            return bool(self.ask(Term("glob", a, b)))
        if k == "like":
            a, b = self.value(e[1], row), self.value(e[2], row)
            if isinstance(a, str) and isinstance(b, str):
                pat = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in b)
                return bool(re.fullmatch(pat, a, re.I | re.S))
            return bool(self.ask(Term("like", a, b)))
        v = self.value(e, row)
        if isinstance(v, int):
            return v != 0
        if v is None or v == "":
            return False
        return bool(self.ask(Term("sql:true", v)))

    def select(self, s, outer=None):
        """Rows as lists of values."""
        return [r for r, _ in self.run(s, outer)]

    def names(self, cols, src):
        out = []
        for c in cols:
            if c == "*":
                out.append("*")
            elif c[0] == "as":
                out.append(c[2])
            elif c[0] == "col":
                out.append(c[1])
            else:
                out.append(None)
        return out

    def visible(self, s, outer):
        """[(values, names of the columns)] of a subquery."""
        names = None
        out = []
        for cols, src, where in s[1][:1]:
            names = []
            for c, n in zip(cols, self.names(cols, src)):
                if c == "*":
                    names += self.star(src)
                else:
                    names.append(n or "?%d" % len(names))
        return [(v, names) for v, _ in self.run(s, outer)]

    def star(self, src):
        if isinstance(src, tuple):
            cols, inner, _ = src[1][0]
            out = []
            for c, n in zip(cols, self.names(cols, inner)):
                out += self.star(inner) if c == "*" else [n or "?%d" % len(out)]
            return out
        rows = self.of(src)
        return list(rows[0]) if rows else []

    def run(self, s, outer=None):
        """[(values, row by name, with what ORDER BY sees)]"""
        _, arms, order, limit = s
        out = []
        for cols, src, where in arms:
            if src is None:
                rows = [dict(outer or {})]
            elif isinstance(src, str):
                rows = self.of(src)
            else:
                rows = [dict(zip(n, v)) for v, n in self.visible(src, outer)]
            hit = [r for r in rows if self.truth(where, r)]
            agg = any(c != "*" and (c[1] if c[0] == "as" else c)[0] == "fn" and (c[1] if c[0] == "as" else c)[1] in ("COUNT",) for c in cols)
            if agg:
                vals = [len(hit) if (c[1] if c[0] == "as" else c)[:2] == ("fn", "COUNT") else (self.value(c[1] if c[0] == "as" else c, hit[0]) if hit else None) for c in cols]
                out.append((vals, dict(zip([n or "?" for n in self.names(cols, src)], vals))))
                continue
            for r in hit:
                vals, named = [], {}
                for c, n in zip(cols, self.names(cols, src)):
                    if c == "*":
                        for kk, v in r.items():
                            vals.append(v)
                            named[kk] = v
                    else:
                        v = self.value(c[1] if c[0] == "as" else c, r)
                        vals.append(v)
                        named[n or "?%d" % len(vals)] = v
                if isinstance(src, str):
                    named = dict(r, **named)      # for ORDER BY
                out.append((vals, named))
        for c, d in reversed(order):
            key = lambda x: self.value(c, x[1])
            ks = [key(x) for x in out]
            if any(isinstance(k, Term) for k in ks):
                if len(set(ks)) > 1:
                    raise Unknown("order by %r" % (ks,))
                continue
            out.sort(key=lambda x: (isinstance(key(x), str), key(x) if key(x) is not None else -1), reverse=d == "DESC")
        if limit is not None:
            n = self.value(limit, None)
            if isinstance(n, str) and n.lstrip("-").isdigit():
                n = int(n)
            if not isinstance(n, int):
                raise Unknown("limit %r" % (n,))
            out = out[:n] if n >= 0 else out
        return out

    def apply(self, s):
        """Executes an update, delete or insert on the rows."""
        rows = self.of(s[1])
        tell = self.changed if s[1] == self.name else (lambda *a: None)
        if s[0] == "update":
            hit = [r for r in rows if self.truth(s[3], r)]
            for r in hit:
                self.set(r, s[2], tell)
            return len(hit)
        if s[0] == "delete":
            gone = [r for r in rows if self.truth(s[2], r)]
            rows[:] = [r for r in rows if not any(r is g for g in gone)]
            for r in gone:
                tell("delete", r, None)
            return len(gone)
        if s[0] == "insert":
            cols = s[2] or list(rows[0])
            for vs in s[3]:
                if len(vs) != len(cols):
                    raise Unknown("columns and values differ in number")
                new = dict(zip(cols, [self.value(v, None) for v in vs]))
                old = [r for r in rows if s[1] == self.name and any(self.compare("=", r[k], new.get(k)) for k in self.keys)]
                if old and s[5]:
                    if s[5][1] is None:
                        continue
                    env = {"excluded." + c: v for c, v in new.items()}
                    for r in old:
                        if self.truth(s[5][2], dict(r, **env)):
                            self.set(r, s[5][1], tell, env)
                    continue
                if old and not s[4]:
                    raise Unknown("a row with this key exists")
                if old:
                    rows[:] = [r for r in rows if not any(r is g for g in old)]
                    for r in old:
                        tell("replace", r, None)
                rows.append(new)
                tell("insert", None, new)
            return len(s[3])
        raise Give("statement %s" % s[0])

    def set(self, r, sets, tell, env=()):
        seen = dict(r, **dict(env))
        new = {c: self.value(x, seen) for c, x in sets}
        old = dict(r)
        for c, v in new.items():
            if c not in r:
                raise Unknown("column %s" % c)
            if c == "data" and isinstance(v, Term) and r["data"] in self.json and v.fn in ("sql:JSON_SET", "sql:JSON_REMOVE", "sql:JSON_PATCH"):
                self.json.setdefault(v, dict(self.json[r["data"]]))
        r.update(new)
        tell("update", old, r)


def parse(text):
    return Parser(tokens(text)).statement()
