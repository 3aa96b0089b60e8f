"""Abstract interpreter over the structured program: strings are sequences of literals and opaque terms, containers hold abstract values, whatever is
not determined is decided both ways (the same undecided term always the same way on one path). Paths are enumerated by replaying the sequence of
decisions. Nothing of the program is executed: its expressions are evaluated over this domain, and calls without a model give opaque terms."""
import os
import re
from .core import strip, Explorer


NPOS = (1 << 64) - 1


class Give(Exception):
    """The path cannot be followed in this domain."""


class Throw(Exception):
    def __init__(self, typ, what=None, where=0):
        self.typ, self.what, self.where = typ, what, where


class Flow(Exception):
    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v


class Term:
    """An opaque value: what it was computed from."""
    __slots__ = ("fn", "args", "h")

    def __init__(self, fn, *args):
        self.fn, self.args = fn, args
        self.h = hash((fn, args))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Term) and self.h == o.h and (self.fn, self.args) == (o.fn, o.args)

    def __repr__(self):
        return "%s(%s)" % (self.fn, ", ".join(map(repr, self.args))) if self.args else self.fn


class Str:
    """Text: literals and terms."""
    __slots__ = ("p",)

    def __init__(self, *pieces):
        out = []
        for x in pieces:
            if isinstance(x, Str):
                xs = x.p
            else:
                xs = (x,)
            for y in xs:
                if y == "" and isinstance(y, str):
                    continue
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                else:
                    out.append(y)
        self.p = tuple(out)

    @property
    def lit(self):
        return "" if not self.p else self.p[0] if len(self.p) == 1 and isinstance(self.p[0], str) else None

    def __hash__(self):
        return hash(self.p)

    def __eq__(self, o):
        return isinstance(o, Str) and self.p == o.p

    def __repr__(self):
        return "'" + "".join(x if isinstance(x, str) else "{%r}" % x for x in self.p) + "'"


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class CList:
    def __init__(self, items=()):
        self.items = [x if isinstance(x, Cell) else Cell(x) for x in items]

    def key(self):
        return ("list",) + tuple(freeze(c.v) for c in self.items)


class CMap:
    def __init__(self, base=None, lazy=None):
        self.d = {}
        self.base = base
        self.gone = set()
        self.lazy = lazy        # what a key that was not touched yet holds: text or None

    def key(self):
        return ("map", self.base, tuple(sorted((k, freeze(c.v)) for k, c in self.d.items())))

    def fill(self, k):
        if self.lazy and k not in self.d and k not in self.gone:
            v = self.lazy(k)
            if v is NotImplemented:
                return
            if v is None:
                self.gone.add(k)
            else:
                self.d[k] = Cell(v)

    def get(self, k):
        self.fill(k)
        if k not in self.d:
            self.d[k] = Cell(Str(Term("field", self.base, k)) if self.base is not None and k not in self.gone else Str())
        return self.d[k]


class CRes:
    """Rows of a result: lists of cells."""

    def __init__(self, rows=()):
        self.rows = [CList(r) for r in rows]

    def key(self):
        return ("rows",) + tuple(r.key() for r in self.rows)


class Iter:
    def __init__(self, c, pos):
        self.c, self.pos = c, pos

    def key(self):
        return ("iter", id(self.c), self.pos)


class Lam:
    def __init__(self, fid, frame):
        self.fid, self.frame = fid, frame

    def key(self):
        return ("lambda", self.fid)


def freeze(v):
    return v.key() if hasattr(v, "key") else v


def thaw_copy(v):
    if isinstance(v, CList):
        return CList([thaw_copy(c.v) for c in v.items])
    if isinstance(v, CMap):
        m = CMap(v.base, v.lazy)
        m.d = {k: Cell(thaw_copy(c.v)) for k, c in v.d.items()}
        m.gone = set(v.gone)
        return m
    if isinstance(v, CRes):
        r = CRes()
        r.rows = [thaw_copy(x) for x in v.rows]
        return r
    return v


class Frame:
    def __init__(self, fn, parent=None, this=None):
        self.fn, self.parent, self.this = fn, parent, this
        self.vars = {}


def is_str_type(t):
    return re.match(r"(const )?(std::)?(__cxx11::)?(string\b|basic_string<char\b|SString\b)", t or "") is not None


def kind_of(t):
    t = (t or "").replace("const ", "").strip(" &")
    if t.endswith("*"):
        return None
    if is_str_type(t):
        return "str"
    if re.match(r"(std::)?map<std::basic_string<char|STable\b", t):
        return "map"
    if re.match(r"(std::)?(list|vector|set|deque|multiset|unordered_set|initializer_list)<", t):
        return "list"
    if re.match(r"SQResult$", t):
        return "res"
    if re.match(r"(unsigned |signed )?(bool|char|short|int|long|long long|size_t|u?int\d+_t|double|float)( int)?$", t):
        return "num"
    return None


UNSIGNED = {"unsigned long": 64, "unsigned long long": 64, "size_t": 64, "std::size_t": 64, "uint64_t": 64, "unsigned int": 32, "uint32_t": 32}


def wrapped(v, t):
    """A number as its unsigned type has it."""
    b = UNSIGNED.get((t or "").replace("const ", "").strip(" &")) if isinstance(v, int) and (v < 0 or v >> 32) else None
    return v & ((1 << b) - 1) if b else v


class Interp:
    STEPS = 200000
    LOOP = 6

    def __init__(self, p, hook, script=(), scenario=None):
        self.p, self.hook, self.sc = p, hook, scenario
        self.script = list(script)
        self.taken = []          # [(key, index, number of options)]
        self.decided = {}
        self.events = []
        self.steps = 0
        self.functions = set()
        self.depth = 0
        self.line = 0
        self.globals = {}

    # -- decisions
    def choose(self, key, options=(False, True)):
        """One of the options; the same key always gives the same one on a path (keys of None are new each time)."""
        if key is not None and key in self.decided:
            return self.decided[key]
        i = len(self.taken)
        j = self.script[i] if i < len(self.script) else 0
        self.taken.append((key, j, len(options), self.line))
        v = options[j]
        if key is not None:
            self.decided[key] = v
        return v

    def truth(self, v, why=None):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, Term):
            if v.fn == "!":
                return not self.truth(v.args[0])
            return bool(self.choose(("t", v)))
        if isinstance(v, (Lam, CList, CMap, CRes)) or hasattr(v, "definite"):
            return True
        if v is None:
            return bool(self.choose(None))
        return bool(self.choose(("t", freeze(v))))

    # -- calls from outside
    def call_fn(self, fn, args, this=None, parent=None):
        """args: cells."""
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Give("recursion in %s" % fn["q"])
        fr = Frame(fn, parent, this)
        self.functions.add(fn["q"])
        for i, prm in enumerate(fn.get("p") or ()):
            a = args[i] if i < len(args) else Cell(Term("unset", prm.get("n")))
            t = prm.get("t", "").strip()
            fr.vars[prm.get("id")] = a if t.endswith("&") else Cell(thaw_copy(a.v))
        line = self.line
        try:
            self.st(fn["body"], fr)
        except Flow as f:
            if f.kind != "return":
                raise
            return f.v
        finally:
            self.depth -= 1
            self.line = line
        return Cell(0)

    # -- statements
    def st(self, s, fr):
        if not isinstance(s, dict):
            return
        self.steps += 1
        if self.steps > self.STEPS:
            raise Give("too many steps")
        k = s["k"]
        if s.get("l"):
            self.line = s["l"]
        if k in ("block", "seq"):
            for x in s["s"]:
                self.st(x, fr)
        elif k == "inl":
            try:
                for x in s["s"]:
                    self.st(x, fr)
            except Flow as f:
                if f.kind != "leave":
                    raise
        elif k == "leaveinl":
            raise Flow("leave")
        elif k == "decl":
            for v in s["v"]:
                self.declare(v, fr)
        elif k == "expr":
            self.ev(s["e"], fr)
        elif k == "log":
            self.events.append(("log", self.line))
        elif k == "abort":
            raise Throw("abort", None, self.line)
        elif k == "if":
            if "init" in s:
                self.st(s["init"], fr)
            if s.get("cv"):
                self.declare(s["cv"], fr)
            c = s["c"]
            if self.cond(c, fr):
                self.st(s["t"], fr)
            elif "f" in s:
                self.st(s["f"], fr)
        elif k in ("while", "for"):
            if "init" in s:
                self.st(s["init"], fr)
            n = 0
            while True:
                if s.get("cv"):
                    self.declare(s["cv"], fr)
                before = len(self.taken)
                if s.get("c") is not None and not self.cond(s["c"], fr):
                    break
                n += 1
                if n > 40 or (n > self.LOOP and len(self.taken) > before):
                    raise Give("loop")
                try:
                    self.st(s["body"], fr)
                except Flow as f:
                    if f.kind == "break":
                        break
                    if f.kind != "continue":
                        raise
                if s.get("inc") is not None:
                    self.ev(s["inc"], fr)
        elif k == "do":
            n = 0
            while True:
                n += 1
                if n > self.LOOP:
                    raise Give("loop")
                try:
                    self.st(s["body"], fr)
                except Flow as f:
                    if f.kind == "break":
                        break
                    if f.kind != "continue":
                        raise
                if not self.cond(s["c"], fr):
                    break
        elif k == "rangefor":
            self.rangefor(s, fr)
        elif k == "switch":
            self.switch(s, fr)
        elif k in ("case", "default", "label"):
            self.st(s.get("s"), fr)
        elif k == "return":
            v = None
            if s.get("e") is not None:
                ref = (fr.fn.get("ret") or "").strip().endswith("&")
                v = self.lv(s["e"], fr) if ref else Cell(thaw_copy(self.ev(s["e"], fr)))
                if kind_of(fr.fn.get("ret")) == "str":
                    v = Cell(self.to_str(v.v))
            raise Flow("return", v or Cell(0))
        elif k == "break":
            raise Flow("break")
        elif k == "continue":
            raise Flow("continue")
        elif k == "try":
            try:
                self.st(s["body"], fr)
            except Throw as t:
                for h in s["h"]:
                    ty = h.get("c") or h.get("t")
                    if t.typ != "abort" and (ty is None or self.catches(ty, t.typ)):
                        v = h.get("v") or h.get("var")
                        if isinstance(v, dict) and v.get("id"):
                            fr.vars[v["id"]] = Cell(Term("exception"))
                        outer, self.caught = getattr(self, "caught", None), t
                        try:
                            self.st(h["body"], fr)
                        finally:
                            self.caught = outer
                        return
                raise
        elif k == "goto":
            raise Give("goto")

    def catches(self, ty, thrown):
        ty = re.sub(r"^const |[ &]+$", "", ty)
        return ty == thrown or ty == "std::exception" and thrown not in ("int",) or self.p.derives(thrown or "", ty)

    def rangefor(self, s, fr):
        c = self.ev(s["range"], fr)
        if isinstance(c, CRes):
            items = [Cell(r) for r in c.rows]
        elif isinstance(c, CList):
            items = list(c.items)
        elif hasattr(c, "iterate"):
            items = c.iterate()
        elif isinstance(c, CMap) and c.base is None:
            items = [Cell(CPair(k, v)) for k, v in sorted(c.d.items())]
        else:
            raise Give("loop over %r" % (c,))
        v = s["var"]
        ref = v.get("t", "").strip().endswith("&")
        for x in items:
            y = x if ref else Cell(thaw_copy(x.v))
            fr.vars[v.get("id")] = y
            for i, b in enumerate(v.get("binds") or ()):
                if isinstance(y.v, CPair):
                    fr.vars[b.get("id")] = y.v.second if i else y.v.one()
            try:
                self.st(s["body"], fr)
            except Flow as f:
                if f.kind == "break":
                    break
                if f.kind != "continue":
                    raise

    def switch(self, s, fr):
        v = self.ev(s["c"], fr)
        body = s["body"]
        ss = body.get("s", [body]) if body.get("k") == "block" else [body]

        def flat(x):
            labels, cur = [], x
            while isinstance(cur, dict) and cur.get("k") in ("case", "default"):
                labels.append(cur)
                cur = cur.get("s")
            return labels, cur
        flatten = []
        for x in ss:
            flatten.append(flat(x))
        val = lambda c: self.ev(c["v"], fr) if isinstance(c.get("v"), dict) else c.get("iv")
        start = None
        if isinstance(v, int):
            for i, (ls, _) in enumerate(flatten):
                if any(l["k"] == "case" and val(l) == v for l in ls):
                    start = i
            if start is None:
                for i, (ls, _) in enumerate(flatten):
                    if any(l["k"] == "default" for l in ls):
                        start = i
        else:
            opts = [i for i, (ls, _) in enumerate(flatten) if ls]
            if not any(l["k"] == "default" for ls, _ in flatten for l in ls):
                opts.append(None)
            start = self.choose(("sw", freeze(v)), opts)
        if start is None:
            return
        try:
            for ls, x in flatten[start:]:
                self.st(x, fr)
        except Flow as f:
            if f.kind != "break":
                raise

    def declare(self, v, fr):
        i = v.get("init")
        t = v.get("t", "")
        if v.get("binds") and isinstance(i, dict):
            x = self.ev(i, fr)
            if isinstance(x, CPair):
                for b, c in zip(v["binds"], (x.one(), x.second)):
                    fr.vars[b.get("id")] = c
            else:
                for b in v["binds"]:
                    fr.vars[b.get("id")] = Cell(Term("part", b.get("n"), freeze(x)))
            return
        if isinstance(i, dict):
            if t.strip().endswith("&"):
                c = self.lv(i, fr)
            else:
                x = thaw_copy(self.ev(i, fr))
                c = Cell(self.to_str(x) if kind_of(t) == "str" else x)
        else:
            c = Cell(self.default(t))
        if kind_of(t) in ("list", "map", "res") and not isinstance(c.v, (CList, CMap, CRes)):
            c.v = self.default(t) if c.v is None or isinstance(i, dict) and strip(i).get("k") == "ctor" and not strip(i).get("a") else c.v
        fr.vars[v.get("id")] = c

    def default(self, t):
        k = kind_of(t)
        return Str() if k == "str" else CList() if k == "list" else CMap() if k == "map" else CRes() if k == "res" else Term("unset", t)

    # -- expressions
    def cond(self, e, fr):
        e = strip(e)
        if isinstance(e, dict):
            if e.get("k") == "un" and e["op"] == "!":
                return not self.cond(e["e"], fr)
            if e.get("k") == "bin" and e["op"] == "&&":
                return self.cond(e["x"], fr) and self.cond(e["y"], fr)
            if e.get("k") == "bin" and e["op"] == "||":
                return self.cond(e["x"], fr) or self.cond(e["y"], fr)
        return self.truth(self.ev(e, fr))

    def ev(self, e, fr):
        return self.lv(e, fr).v

    def var(self, e, fr):
        i = e.get("id")
        f = fr
        while f is not None:
            if i in f.vars:
                return f.vars[i]
            f = f.parent
        if e.get("vk") in ("local", "param"):
            fr.vars[i] = Cell(self.default(e.get("t")))
            return fr.vars[i]
        q = e.get("q") or e.get("n")
        if q not in self.globals:
            self.globals[q] = Cell(self.global_value(q))
        return self.globals[q]

    def global_value(self, q):
        if str(q).endswith("::npos"):
            return NPOS
        g = self.p.globals.get(q)
        e = g.get("init") if g and "const" in str(g.get("t")) else None
        while e is not None and e.get("k") == "cast":
            e = e.get("e")
        if e is not None and e.get("k") == "int":
            return int(e["v"])
        return Term("::" + str(q))

    def lv(self, e, fr):
        e = strip(e)
        if not isinstance(e, dict):
            return Cell(Term("nothing"))
        self.steps += 1
        if self.steps > self.STEPS:
            raise Give("too many steps")
        if e.get("l"):
            self.line = e["l"]
        k = e.get("k")
        if k == "cell":
            return e["c"]
        if k == "int" or k == "char":
            try:
                return Cell(int(e["v"]))
            except (ValueError, TypeError):
                return Cell(Str(str(e["v"])) if k == "char" else Term("num", str(e["v"])))
        if k == "bool":
            return Cell(1 if str(e["v"]).lower() in ("1", "true") else 0)
        if k == "float":
            return Cell(Term("num", str(e["v"])))
        if k == "str":
            return Cell(Str(e["v"]))
        if k == "null":
            return Cell(0)
        if k == "enum":
            v = Explorer.ENUMS.get(e["q"])
            return Cell(v if v is not None else Term(e["q"]))
        if k == "this":
            f = fr
            while f is not None and f.this is None:
                f = f.parent
            return f.this if f is not None else self.globals.setdefault("this", Cell(Term("this")))
        if k == "var":
            r = self.hook.var(self, e, fr) if hasattr(self.hook, "var") else None
            return r if r is not None else self.var(e, fr)
        if k == "mem":
            return self.member(e, fr)
        if k == "cast" or k == "defarg" or k == "paren":
            return self.lv(e.get("e"), fr)
        if k == "cond":
            return self.lv(e["x"] if self.cond(e["c"], fr) else e["y"], fr)
        if k == "lambda":
            return Cell(Lam(e["f"], fr))
        if k == "throw":
            t = None
            if isinstance(e.get("e"), dict):
                t = e.get("c") or e["e"].get("c") or e.get("t") or e["e"].get("t")
            elif getattr(self, "caught", None):
                raise self.caught
            raise Throw(t or e.get("t"), self.what(e, fr), self.line)
        if k == "bin":
            return self.binary(e, fr)
        if k == "un":
            return self.unary(e, fr)
        if k == "idx":
            b, i = self.ev(e["b"], fr), self.ev(e["i"], fr)
            return self.index(b, i, e)
        if k in ("ctor", "init"):
            return self.construct(e, fr)
        if k in ("call", "icall"):
            return self.call(e, fr)
        if k == "stmtexpr":
            self.st(e["s"], fr)
            return Cell(Term("statement"))
        if k in ("new", "delete") and hasattr(self.hook, k):
            r = getattr(self.hook, k)(self, e, fr)
            if r is not None:
                return r
        if k in ("new", "delete"):
            for x in e.get("a", ()) or ():
                self.ev(x, fr)
            return Cell(Term(k, e.get("t", "")))
        if k == "fref":
            return Cell(Term("fn", e.get("f") or e.get("q")))
        for n in ("e", "x", "y"):
            if isinstance(e.get(n), dict):
                self.ev(e[n], fr)
        return Cell(Term(k or "?", self.line))

    def what(self, e, fr):
        """The literal text a thrown object is built from."""
        out = []

        def go(x):
            if not isinstance(x, dict):
                return
            if x.get("k") == "str":
                out.append(x["v"])
            for y in x.values():
                if isinstance(y, dict):
                    go(y)
                elif isinstance(y, list):
                    for z in y:
                        go(z)
        go(e)
        return out[0] if out else None

    def member(self, e, fr):
        r = self.hook.member(self, e, fr) if hasattr(self.hook, "member") else None
        if r is not None:
            return r
        b = self.lv(e["b"], fr) if isinstance(e.get("b"), dict) else Cell(Term("this"))
        v = b.v
        n = e.get("n")
        if isinstance(v, CPair):
            return v.one() if n == "first" else v.second
        if isinstance(v, Iter):
            x = v.c.d if isinstance(v.c, CMap) else None
            if x is not None and v.pos in x:
                return Cell(Str(v.pos)) if n == "first" else x[v.pos]
        if hasattr(v, "member"):
            r = v.member(n, e)
            if r is not None:
                return r
        if isinstance(v, dict):
            if n not in v:
                v[n] = Cell(self.default(e.get("t")))
            return v[n]
        key = ("member", freeze(v), e.get("q"))
        if key not in self.globals:
            d = self.default(e.get("t"))
            self.globals[key] = Cell(Term("." + str(n), freeze(v)) if not isinstance(d, (CList, CMap, CRes)) else d if isinstance(d, CRes) else Term("." + str(n), freeze(v)))
            if kind_of(e.get("t")) == "str":
                self.globals[key].v = Str(self.globals[key].v)
        return self.globals[key]

    def binary(self, e, fr):
        op = e["op"]
        if op in ("&&", "||"):
            return Cell(int(self.cond(e, fr)))
        if op == ",":
            self.ev(e["x"], fr)
            return self.lv(e["y"], fr)
        if op == "=" or op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            y = self.ev(e["y"], fr)
            x = self.lv(e["x"], fr)
            x.v = thaw_copy(y) if op == "=" else wrapped(self.arith(op[:-1], x.v, y), e.get("t"))
            return x
        return Cell(wrapped(self.arith(op, self.ev(e["x"], fr), self.ev(e["y"], fr)), e.get("t")))

    def arith(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: int(a / b), "%": lambda: a % b, "<": lambda: int(a < b), ">": lambda: int(a > b),
                        "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b), "<<": lambda: a << b, "|": lambda: a | b,
                        "&": lambda: a & b, "^": lambda: a ^ b, ">>": lambda: a >> b}[op]()
            except (KeyError, ZeroDivisionError):
                pass
        if op in ("==", "!="):
            r = self.equal(a, b)
            if isinstance(r, int):
                return r if op == "==" else 1 - r
            return r if op == "==" else Term("!", r)
        if op == "!=" or op == ">=" or op == ">":        # one polarity of each
            neg = {">=": "<", ">": "<="}[op]
            return Term("!", Term(neg, freeze(a), freeze(b)))
        return Term(op, freeze(a), freeze(b))

    def equal(self, a, b):
        if isinstance(a, Str) and isinstance(b, Str):
            if a == b:
                return 1
            if a.lit is not None and b.lit is not None:
                return int(a.lit == b.lit)
            if a.lit == "" or b.lit == "":
                return self.str_empty(b if a.lit == "" else a)
            if all(len(x.p) == 1 and (isinstance(x.p[0], str) or x.p[0].fn in getattr(self.hook, "CONSTS", ())) for x in (a, b)):
                return 0          # different constants
        elif hasattr(a, "definite") or hasattr(b, "definite"):
            return int(a is b)
        elif isinstance(a, Iter) and isinstance(b, Iter):
            return int(a.c is b.c and a.pos == b.pos)
        elif freeze(a) == freeze(b):
            return 1
        x, y = sorted((freeze(a), freeze(b)), key=repr)
        return Term("==", x, y)

    def str_empty(self, s):
        """1, 0 or a term."""
        s = self.to_str(s)
        if s.lit is not None:
            return int(s.lit == "")
        if any(isinstance(x, str) and x for x in s.p):
            return 0
        r = self.hook.empty(self, s) if hasattr(self.hook, "empty") else None
        return Term("empty", s) if r is None else r

    def to_str(self, v):
        if isinstance(v, Str) or getattr(v, "text", False):       # (or an object that stands for a text)
            return v
        if isinstance(v, CList) or isinstance(v, CMap):
            return Str(Term("text", freeze(v)))
        return Str(v if isinstance(v, Term) else Term("text", freeze(v)))

    def piece(self, v):
        """What is appended to a text: a text or one character."""
        return Str(chr(v)) if isinstance(v, int) and 0 < v < 256 else self.to_str(v)

    def unary(self, e, fr):
        op = e["op"]
        if op == "!":
            return Cell(int(not self.cond(e["e"], fr)))
        c = self.lv(e["e"], fr)
        if op in ("++", "--"):
            old = c.v
            c.v = self.arith("+" if op == "++" else "-", c.v, 1)
            return Cell(old) if e.get("post") else c
        if op in ("*", "&"):
            if isinstance(c.v, Iter):
                return self.deref(c.v)
            return c
        if op == "-" and isinstance(c.v, int):
            return Cell(-c.v)
        if op == "+":
            return c
        return Cell(Term(op, freeze(c.v)))

    def deref(self, it):
        if isinstance(it.c, CMap):
            if it.pos in it.c.d:
                return Cell(CPair(it.pos, it.c.d[it.pos]))
            return Cell(CPair("?", Cell(Term("deref"))))
        xs = it.c.items if isinstance(it.c, CList) else [Cell(r) for r in it.c.rows]
        if isinstance(it.pos, int) and it.pos < len(xs):
            return xs[it.pos]
        raise Give("iterator past the end")

    def construct(self, e, fr):
        r = self.hook.construct(self, e, fr) if hasattr(self.hook, "construct") else None
        if r is not None:
            return r
        a = e.get("a")
        if a is None:
            a = e.get("e") if isinstance(e.get("e"), list) else []
        real = [x for x in a if isinstance(x, dict) and x.get("k") != "defarg"]
        k = kind_of(e.get("t", ""))
        if k == "str":
            if not real:
                return Cell(Str())
            if len(real) == 1 or is_str_type(e.get("t", "")) and len(real) == 2 and real[1].get("k") in ("ctor",) and "allocator" in real[1].get("t", ""):
                return Cell(self.to_str(self.ev(real[0], fr)))
            return Cell(Str(Term("string", *[freeze(self.ev(x, fr)) for x in real])))
        if k == "list":
            if not real:
                return Cell(CList())
            vs = [self.ev(x, fr) for x in real]
            if len(vs) == 1 and isinstance(vs[0], CList):
                return Cell(thaw_copy(vs[0]))
            if len(vs) >= 2 and isinstance(vs[0], Iter) and isinstance(vs[1], Iter) and isinstance(vs[0].c, CList) and vs[0].c is vs[1].c:
                return Cell(CList([thaw_copy(c.v) for c in vs[0].c.items[vs[0].pos:vs[1].pos]]))
            if len(vs) == 1 and not isinstance(vs[0], (Str, int)) or any(isinstance(v, Iter) for v in vs):
                return Cell(Term("list", *map(freeze, vs)))
            return Cell(CList([thaw_copy(v) for v in vs]))
        if k == "map":
            vs = [self.ev(x, fr) for x in real]
            if len(vs) == 1 and isinstance(vs[0], CMap):
                return Cell(thaw_copy(vs[0]))
            if not vs:
                return Cell(CMap())
            return Cell(CMap(Term("map", *map(freeze, vs))))
        if k == "res":
            vs = [self.ev(x, fr) for x in real]
            return Cell(thaw_copy(vs[0]) if vs and isinstance(vs[0], CRes) else CRes())
        if len(real) == 1:
            return Cell(thaw_copy(self.ev(real[0], fr)))
        return Cell(Term("new:" + (e.get("c") or e.get("t", "")), *[freeze(self.ev(x, fr)) for x in real]))

    def index(self, b, i, e):
        if isinstance(b, CRes) and isinstance(i, int):
            if i >= len(b.rows):
                raise Throw("std::out_of_range", "no row", self.line)
            return Cell(b.rows[i])
        if isinstance(b, CList) and isinstance(i, int):
            if i >= len(b.items):
                raise Throw("std::out_of_range", "no column", self.line)
            return b.items[i]
        if isinstance(b, CList) and isinstance(i, Str):
            raise Give("column by name")
        if isinstance(b, CMap):
            i = self.to_str(i)
            return b.get(i.lit if i.lit is not None else i)
        if isinstance(b, Str) and b.lit is not None and isinstance(i, int) and 0 <= i < len(b.lit):
            return Cell(ord(b.lit[i]))
        t = Term("[]", freeze(b), freeze(i))
        return Cell(Str(t) if kind_of(e.get("t", "")) == "str" else t)

    # -- calls
    def call(self, e, fr):
        q = e.get("q", "")
        r = self.hook.call(self, e, q, fr)
        if r is not None:
            return r if isinstance(r, Cell) else Cell(r)
        last = q.split("::")[-1]
        a = [x for x in e.get("a", ()) if isinstance(x, dict)]
        if e.get("op") and "obj" not in e and a and not q.startswith("SQ"):
            return self.operator(e, e["op"], self.lv(a[0], fr), a[1:], fr)
        if e.get("op") == "()" or "fe" in e or last == "operator()":
            o = self.ev(e.get("fe") or e.get("obj"), fr)
            args = [self.lv(x, fr) for x in a]
            if isinstance(o, Lam):
                return self.call_fn(self.p.fns[o.fid], args, None, o.frame)
            return Cell(Term("call", freeze(o), *[freeze(c.v) for c in args]))
        if e.get("op") and "obj" in e:
            return self.operator(e, e["op"], self.lv(e["obj"], fr), a, fr)
        if "obj" in e:
            o = self.lv(e["obj"], fr)
            m = self.method(e, last, o, a, fr)
            if m is not None:
                return m
        f = FREE.get(q)
        real = [x for x in a if x.get("k") != "defarg"]
        if f:
            args = [self.lv(x, fr) for x in real]
            v = f(self, e, *args)
            if v is not None:
                return v if isinstance(v, Cell) else Cell(v)
            return self.opaque(e, q, None, args)
        g = self.p.fns.get(e.get("f"))
        if g and isinstance(g.get("body"), dict) and (not e.get("v") or "obj" in e and strip(e["obj"]).get("k") == "this") and self.hook.inline(self, g):
            args = [self.lv(x if x.get("k") != "defarg" else x.get("e"), fr) for x in a]
            this = self.lv(e["obj"], fr) if "obj" in e else None
            r = self.call_fn(g, args, this)
            return r
        return self.opaque(e, q, self.lv(e["obj"], fr) if "obj" in e else None, [self.lv(x, fr) for x in real])

    def invoke(self, f, cells):
        """A call of a lambda or of a function that is passed by its name."""
        if isinstance(f, Lam):
            return self.call_fn(self.p.fns[f.fid], list(cells), None, f.frame)
        if isinstance(f, Term) and f.fn == "fn" and f.args and f.args[0]:
            g = self.p.fns.get(f.args[0])
            return self.call({"k": "call", "f": f.args[0], "q": g["q"] if g else f.args[0].split("(")[0], "a": [{"k": "cell", "c": c} for c in cells], "l": self.line}, None)
        raise Give("what is called")

    def apply(self, f, *cells):
        """Truth of a predicate."""
        return self.truth(self.invoke(f, cells).v)

    def opaque(self, e, q, o, args):
        """A call without a model: the result is a term; what it may change becomes unknown."""
        if o is not None and isinstance(o.v, (CList, CMap, CRes)):
            raise Give("%s has no model" % q)
        key = [freeze(c.v) for c in args]
        if o is not None:
            key = [freeze(o.v)] + key
        known = [c.v for c in args] + ([o.v] if o is not None else [])
        if any(isinstance(v, Str) for v in known) and all(isinstance(v, int) or isinstance(v, Str) and v.lit is not None for v in known) and kind_of(e.get("t", "")) != "str" and "SIsValid" not in q:
            raise Give("%s has no model" % q)      # its result is determined
        t = Term(q, *key)
        m = re.search(r"\((.*)\)\s*(const)?$", e.get("f", "") or "")
        g = self.p.fns.get(e.get("f"))
        prm = [x.get("t", "") for x in g.get("p") or ()] if g else None
        for j, c in enumerate(args):
            ty = prm[j] if prm is not None and j < len(prm) else ""
            if ty.strip().endswith("&") and not ty.strip().startswith("const") and not ty.strip().endswith("&&"):
                k = kind_of(ty)
                c.v = Str(Term("out", t, j)) if k == "str" else CMap(Term("out", t, j)) if k == "map" else Term("out", t, j)
        k = kind_of(e.get("t", ""))
        return Cell(Str(t) if k == "str" else CMap(t) if k == "map" else t)

    def operator(self, e, op, o, a, fr):
        v = o.v
        if op == "=":
            y = thaw_copy(self.ev(a[0], fr))
            if isinstance(v, Str) or kind_of(strip(e.get("obj", {})).get("t", "")) == "str":
                y = y if hasattr(y, "of") or isinstance(y, Iter) else self.to_str(y) if not isinstance(y, int) else Str(str(y))
            o.v = y
            return o
        if op == "+=":
            y = self.ev(a[0], fr)
            o.v = Str(self.piece(v), self.piece(y)) if isinstance(v, Str) or isinstance(y, Str) else self.arith("+", v, y)
            return o
        if op == "+":
            y = self.ev(a[0], fr)
            return Cell(Str(self.piece(v), self.piece(y)) if isinstance(v, Str) or isinstance(y, Str) else self.arith("+", v, y))
        if op == "[]":
            return self.index(v, self.ev(a[0], fr), e)
        if op in ("==", "!=", "<", ">", "<=", ">=", "-"):
            return Cell(self.arith(op, v, self.ev(a[0], fr)))
        if op == "!":
            return Cell(int(not self.truth(v)))
        if op in ("*", "->"):
            return self.deref(v) if isinstance(v, Iter) else v.at() if hasattr(v, "at") else o
        if op in ("++", "--"):
            if isinstance(v, Iter) and isinstance(v.pos, int):
                o.v = Iter(v.c, v.pos + (1 if op == "++" else -1))
            elif isinstance(v, Iter):
                ks = sorted(v.c.d) + [None]
                o.v = Iter(v.c, ks[ks.index(v.pos) + 1])
            elif isinstance(v, int):
                o.v = v + (1 if op == "++" else -1)
            return o
        if op == "<<":
            y = self.ev(a[0], fr)
            if isinstance(v, Str):
                o.v = Str(v, self.to_str(y))
            return o
        if op == "bool" or op.startswith("operator"):
            return o
        return self.opaque(e, e.get("q", op), o, [self.lv(x, fr) for x in a])

    def method(self, e, n, o, a, fr):
        v = o.v
        real = [x for x in a if x.get("k") != "defarg"]
        ev = lambda i: self.ev(real[i], fr)
        if isinstance(v, Iter) and n.startswith("operator"):
            return o
        if isinstance(v, Str):
            if n == "empty":
                return Cell(self.str_empty(v))
            if n in ("size", "length"):
                if v.lit is not None:
                    return Cell(len(v.lit))
                z = self.str_empty(v)
                if isinstance(z, int):
                    return Cell(Term("size", v) if not z else 0)
                return Cell(Term("!", z))          # only its truth is known
            if n in ("c_str", "data", "str", "view") or n.startswith("operator"):
                return o
            if n in ("append", "push_back"):
                o.v = Str(v, self.piece(ev(0)))
                return o
            if n == "pop_back" and v.lit:
                o.v = Str(v.lit[:-1])
                return o
            if n in TEXT and v.lit is not None:
                xs = [ev(i) for i in range(len(real))]
                if all(isinstance(x, int) or isinstance(x, Str) and x.lit is not None for x in xs):
                    return Cell(TEXT[n](self, v.lit, *[x if isinstance(x, int) else x.lit for x in xs]))
            if n == "clear":
                o.v = Str()
                return Cell(0)
            return None
        if isinstance(v, (CList, CRes)):
            items = v.items if isinstance(v, CList) else v.rows
            if n == "empty":
                return Cell(int(not items))
            if n == "size":
                return Cell(len(items))
            if n in ("begin", "cbegin"):
                return Cell(Iter(v, 0))
            if n in ("end", "cend"):
                return Cell(Iter(v, len(items)))
            if n in ("front", "back"):
                if not items:
                    raise Give("front of an empty list")
                x = items[0 if n == "front" else -1]
                return x if isinstance(x, Cell) else Cell(x)
            if n == "at":
                return self.index(v, ev(0), e)
            if n == "clear":
                del items[:]
                return Cell(0)
            if isinstance(v, CRes):
                return None
            if n in ("push_back", "emplace_back", "insert", "emplace", "push"):
                if n == "insert" and len(real) >= 2:
                    xs = [ev(i) for i in range(len(real))]
                    if all(isinstance(x, Iter) for x in xs[-2:]) and isinstance(xs[-1].c, CList):
                        for c in xs[-2].c.items[xs[-2].pos:xs[-1].pos]:
                            v.items.append(Cell(thaw_copy(c.v)))
                        return Cell(0)
                    v.items.append(Cell(thaw_copy(xs[-1])))
                    return Cell(0)
                x = thaw_copy(ev(0)) if real else Str()
                if "set<" in q_of(e) and any(freeze(c.v) == freeze(x) for c in v.items):
                    return Cell(0)
                v.items.append(Cell(x))
                return Cell(0)
            if n in ("push_front", "emplace_front"):
                v.items.insert(0, Cell(thaw_copy(ev(0))))
                return Cell(0)
            if n == "pop_front" and v.items:
                v.items.pop(0)
                return Cell(0)
            if n == "pop_back" and v.items:
                v.items.pop()
                return Cell(0)
            if n in ("count", "contains"):
                return Cell(self.contains(v, ev(0)))
            if n == "find":
                x = freeze(ev(0))
                return Cell(Iter(v, next((i for i, c in enumerate(items) if self.truth(self.equal(c.v, ev(0)))), len(items))))
            if n in ("remove_if", "remove"):
                x = ev(0)
                keep = [c for c in items if not (self.apply(x, c) if n == "remove_if" else self.truth(self.equal(c.v, x)))]
                v.items[:] = keep
                return Cell(0)
            if n == "erase" and real:
                xs = [ev(i) for i in range(len(real))]
                if all(isinstance(x, Iter) for x in xs):
                    j = xs[1].pos if len(xs) > 1 else xs[0].pos + 1
                    del v.items[xs[0].pos:j]
                    return Cell(Iter(v, xs[0].pos))
                v.items[:] = [c for c in items if not self.truth(self.equal(c.v, xs[0]))]
                return Cell(0)
            if n in ("reserve", "shrink_to_fit"):
                return Cell(0)
            return None
        if isinstance(v, CMap):
            if n in ("empty",):
                return Cell(0 if v.d and v.base is None else 1 if v.base is None else Term("empty", freeze(v)))
            if n in ("count", "contains", "find"):
                k = self.to_str(ev(0))
                k = k.lit if k.lit is not None else k
                v.fill(k)
                there = 1 if k in v.d else 0 if v.base is None or k in v.gone else Term("has", v.base, k)
                if n != "find":
                    return Cell(there)
                if self.truth(there):
                    v.get(k)
                    return Cell(Iter(v, k))
                return Cell(Iter(v, None))
            if n in ("end", "cend"):
                return Cell(Iter(v, None))
            if n == "at":
                return self.index(v, ev(0), e)
            if n == "erase":
                k = ev(0)
                if isinstance(k, Str) and k.lit is not None:
                    v.d.pop(k.lit, None)
                    v.gone.add(k.lit)
                    return Cell(0)
            if n in ("emplace", "insert_or_assign", "try_emplace") and len(real) == 2:
                k = self.to_str(ev(0))
                v.d[k.lit if k.lit is not None else k] = Cell(thaw_copy(ev(1)))
                return Cell(0)
            if n == "clear":
                v.d, v.base = {}, None
                return Cell(0)
            return None
        return None

    def contains(self, v, x):
        fx = freeze(x)
        und = False
        for c in v.items:
            r = self.equal(c.v, x)
            if isinstance(r, int):
                if r:
                    return 1
            else:
                und = True
        return Term("in", fx, v.key()) if und else 0


class CPair:
    def __init__(self, first, second):
        self.first, self.second = first, second

    def one(self):
        return self.first if isinstance(self.first, Cell) else Cell(Str(self.first))

    def key(self):
        return ("pair", freeze(self.first.v) if isinstance(self.first, Cell) else self.first, freeze(self.second.v))


def q_of(e):
    return e.get("q", "") + strip(e.get("obj", {})).get("t", "") if isinstance(e.get("obj"), dict) else e.get("q", "")


# -- models of the library
def f_siequals(I, e, a, b):
    x, y = I.to_str(a.v), I.to_str(b.v)
    if x.lit is not None and y.lit is not None:
        return int(x.lit.lower() == y.lit.lower())
    return I.equal(x, y)


def f_scontains(I, e, a, b):
    v = a.v
    if isinstance(v, CMap):
        k = I.to_str(b.v)
        k = k.lit if k.lit is not None else k
        v.fill(k)
        return 1 if k in v.d else 0 if v.base is None or k in v.gone else Term("has", v.base, k)
    if isinstance(v, CList):
        return I.contains(v, b.v)
    if isinstance(v, Str) and v.lit is not None and isinstance(b.v, Str) and b.v.lit is not None:
        return int(b.v.lit in v.lit)
    return Term("contains", freeze(v), freeze(b.v))


def f_case(fn):
    def go(I, e, a):
        s = I.to_str(a.v)
        return Str(*[fn(x) if isinstance(x, str) else x if x.fn == fn.__name__ else Term(fn.__name__, x) for x in s.p])
    return go


def upper(x):
    return x.upper()


def lower(x):
    return x.lower()


def f_toint(I, e, a):
    v = a.v
    if isinstance(v, int):
        return v
    s = I.to_str(v)
    if s.lit is not None:
        m = re.match(r"\s*(-?\d+)", s.lit)
        return int(m.group(1)) if m else 0
    return Term("number", s)


def f_tostr(I, e, a):
    return Str(str(a.v)) if isinstance(a.v, int) else I.to_str(a.v)


def f_sq(I, e, a, *_):
    if isinstance(a.v, int):
        return Str(str(a.v))
    if isinstance(a.v, Str):
        return Str(Term("quoted", a.v))
    return Str(Term("quoted", Str(Term("text", freeze(a.v)))))


def f_sqlist(I, e, a, *_):
    if isinstance(a.v, CList):
        out = []
        for i, c in enumerate(a.v.items):
            out += [", "] * (i > 0) + [f_sq(I, e, c)]
        return Str(*out)
    return Str(Term("quotedlist", freeze(a.v)))


def f_composelist(I, e, a, sep=None):
    if isinstance(a.v, CList):
        s = I.to_str(sep.v) if sep is not None else Str(", ")
        out = []
        for i, c in enumerate(a.v.items):
            out += [s] * (i > 0) + [f_tostr(I, e, c)]
        return Str(*out)
    return Str(Term("joined", freeze(a.v)))


def f_parselist(I, e, a, *_):
    s = I.to_str(a.v)
    if s.lit is not None:
        return CList([Str(x.strip()) for x in s.lit.split(",") if x.strip()])
    return None


def f_composejson(I, e, a, *_):
    return Str(Term("json", Box(thaw_copy(a.v))))


class Box:
    """A container inside a term."""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(freeze(self.v))

    def __eq__(self, o):
        return isinstance(o, Box) and freeze(o.v) == freeze(self.v)

    def __repr__(self):
        return repr(freeze(self.v))


def f_parsejson(I, e, a, *_):
    s = I.to_str(a.v)
    if len(s.p) == 1 and isinstance(s.p[0], Term) and s.p[0].fn == "json" and isinstance(s.p[0].args[0].v, (CMap, CList)):
        return thaw_copy(s.p[0].args[0].v)
    if s.lit in ("", "{}", "[]"):
        return CMap() if s.lit != "[]" else CList()
    return CMap(Term("parsed", s))


def f_startswith(I, e, a, b):
    x, y = I.to_str(a.v), I.to_str(b.v)
    if y.lit is not None and x.p and isinstance(x.p[0], str) and (x.lit is not None or len(x.p[0]) >= len(y.lit)):
        return int(x.p[0].startswith(y.lit))
    return None


def f_endswith(I, e, a, b):
    x, y = I.to_str(a.v), I.to_str(b.v)
    if y.lit is not None and x.lit is not None:
        return int(x.lit.endswith(y.lit))
    return None


def f_minmax(which):
    def go(I, e, a, b):
        if isinstance(a.v, int) and isinstance(b.v, int):
            return which(a.v, b.v)
        return None
    return go


def f_format(I, e, *a):
    return None


def span(a, b):
    if not (isinstance(a.v, Iter) and isinstance(b.v, Iter) and isinstance(a.v.c, CList)):
        raise Give("a range")
    return a.v.c, a.v.c.items[a.v.pos:b.v.pos]


def f_any(how):
    def go(I, e, a, b, f):
        c, xs = span(a, b)
        if how == "count":
            return sum(1 for x in xs if I.apply(f.v, x))
        if how == "find":
            return Iter(c, next((a.v.pos + i for i, x in enumerate(xs) if I.apply(f.v, x)), b.v.pos))
        if how == "value":
            return Iter(c, next((a.v.pos + i for i, x in enumerate(xs) if I.truth(I.equal(x.v, f.v))), b.v.pos))
        if how == "each":
            for x in xs:
                I.invoke(f.v, [x])
            return 0
        if how == "remove":
            keep = [x for x in xs if not I.apply(f.v, x)]
            c.items[a.v.pos:b.v.pos] = keep + [Cell(Term("moved-from")) for _ in range(len(xs) - len(keep))]
            return Iter(c, a.v.pos + len(keep))
        want = how == "any"
        for x in xs:
            if I.apply(f.v, x) == (how != "all"):
                return int(want)
        return int(not want)
    return go


def f_eraseif(I, e, a, f):
    if not isinstance(a.v, CList):
        raise Give("erase_if")
    keep = [x for x in a.v.items if not I.apply(f.v, x)]
    n = len(a.v.items) - len(keep)
    a.v.items[:] = keep
    return n


def tx(v):
    return chr(v) if isinstance(v, int) else v


def npos(i):
    return NPOS if i < 0 else i


def t_end(I, s, which):
    if not s:
        raise Give("the end of an empty text")
    return ord(s[which])


def t_substr(I, s, i=0, n=NPOS):
    if i > len(s):
        raise Throw("std::out_of_range", "substr", I.line)
    return Str(s[i:] if n == NPOS or n < 0 else s[i:i + n])


def t_class(inside, last):
    def go(I, s, cs, at=None):
        r = [i for i, c in enumerate(s) if (c in tx(cs)) == inside and (at is None or at == NPOS or (i <= at if last else i >= at))]
        return NPOS if not r else r[-1] if last else r[0]
    return go


TEXT = {
    "back": lambda I, s: t_end(I, s, -1), "front": lambda I, s: t_end(I, s, 0), "at": lambda I, s, i: ord(s[i]),
    "starts_with": lambda I, s, x: int(s.startswith(tx(x))), "ends_with": lambda I, s, x: int(s.endswith(tx(x))), "contains": lambda I, s, x: int(tx(x) in s),
    "substr": t_substr, "find": lambda I, s, x, i=0: npos(s.find(tx(x), i)), "rfind": lambda I, s, x, i=NPOS: npos(s.rfind(tx(x)) if i == NPOS else s.rfind(tx(x), 0, i + len(tx(x)))),
    "find_first_of": t_class(True, False), "find_last_of": t_class(True, True), "find_first_not_of": t_class(False, False), "find_last_not_of": t_class(False, True),
    "compare": lambda I, s, *a: (lambda u, v: (u > v) - (u < v))(s, a[0]) if len(a) == 1 else (lambda u, v: (u > v) - (u < v))(s[a[0]:a[0] + a[1]], a[2]),
}


def f_trim(I, e, a):
    x = I.to_str(a.v).lit
    return None if x is None else Str(x.strip(" \t\r\n"))


FREE = {
    "STrim": f_trim,
    "std::any_of": f_any("any"), "std::all_of": f_any("all"), "std::none_of": f_any("none"), "std::count_if": f_any("count"), "std::find_if": f_any("find"), "std::find": f_any("value"),
    "std::for_each": f_any("each"), "std::remove_if": f_any("remove"), "std::erase_if": f_eraseif,
    "SIEquals": f_siequals, "SContains": f_scontains, "SToUpper": f_case(upper), "SToLower": f_case(lower), "SToInt": f_toint, "SToInt64": f_toint, "SToUInt64": f_toint,
    "SToStr": f_tostr, "std::to_string": f_tostr, "SQ": f_sq, "SQList": f_sqlist, "SComposeList": f_composelist, "SComposeJSONObject": f_composejson, "SComposeJSONArray": f_composejson,
    "SParseJSONObject": f_parsejson, "SParseList": f_parselist, "SStartsWith": f_startswith, "SEndsWith": f_endswith, "std::max": f_minmax(max), "std::min": f_minmax(min),
    "std::move": lambda I, e, a: a, "std::forward": lambda I, e, a: a, "std::as_const": lambda I, e, a: a,
}


def paths(p, hook_of, run, cap=4000, notes=None):
    """All paths: yields (interp, result of run(interp)). run may raise Throw (kept as the result) or Give (noted)."""
    script, n = [], 0
    while True:
        hook = hook_of()
        I = Interp(p, hook, script)
        try:
            r = ("end", run(I))
        except Throw as t:
            r = ("throw", t)
        except Give as g:
            r = ("give", g)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError) as x:
            if os.environ.get("BSA_DEBUG"):
                raise
            r = ("give", Give("%s: %s" % (type(x).__name__, x)))
        yield I, hook, r
        n += 1
        if n >= cap:
            if notes is not None:
                notes.append("more than %d paths" % cap)
            return
        t = [(j, m) for _, j, m, _ in I.taken]
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        script = [j for j, _ in t[:-1]] + [t[-1][0] + 1]
