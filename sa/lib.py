"""Shared rule vocabulary: locks, SQL statements, sites, callers."""
import re
from .core import *
from .facts import Broken

RAII = re.compile(r"^std::(lock_guard|unique_lock|shared_lock|scoped_lock)<")


def is_raii_class(c):
    return bool(c) and re.match(r"^std::(lock_guard|unique_lock|shared_lock|scoped_lock)\b", c) is not None


def mutex_field(e):
    """Qualified name of the mutex field/global/local an expression denotes (type-resolved)."""
    e = strip(e)
    while isinstance(e, dict):
        if e["k"] == "mem":
            return e["q"]
        if e["k"] == "var":
            return e.get("q") or e.get("id")
        if e["k"] == "un" and e["op"] in ("*", "&"):
            e = strip(e["e"])
        elif e["k"] == "call" and e.get("op") in ("*", "->") and "obj" in e:
            e = strip(e["obj"])
        elif e["k"] == "call":
            return "ret:" + e.get("q", "?")
        elif e["k"] == "idx":
            e = strip(e["b"])
        else:
            return None
    return None


def raii_info(init):
    """(mutex exprs, mode) for the initialiser of a RAII lock."""
    i = strip(init) if init else None
    if not i or i.get("k") != "ctor":
        return [], "none"
    args = [a for a in i.get("a", ()) if a.get("k") != "defarg"]
    mode = "lock"
    mx = []
    for a in args:
        t = strip(a)
        nm = t.get("n", "") if t.get("k") == "var" else ""
        cls = t.get("c", "") if t.get("k") == "ctor" else ""
        if nm == "defer_lock" or "defer_lock" in cls or "defer_lock" in str(t.get("t", "")):
            mode = "defer"
        elif nm == "try_to_lock" or "try_to_lock" in cls or "try_to_lock" in str(t.get("t", "")):
            mode = "try"
        elif nm == "adopt_lock" or "adopt_lock" in cls or "adopt_lock" in str(t.get("t", "")):
            mode = "adopt"
        elif "chrono" in str(t.get("t", "")) or "chrono" in cls:
            mode = "try"
        else:
            mx.append(a)
    return mx, mode


def lock_ops(n, g):
    """Lock operations of a CFG node: list of (op, mutex field, mutex path, shared, raii path or None).
    op: acquire | try | release | raii-acquire | raii-try | raii-defer | raii-adopt | raii-release | raii-lock | raii-unlock"""
    out = []
    if n.k == "decl" and is_raii_class(n.e.get("c")):
        mx, mode = raii_info(n.e.get("init"))
        shared = n.e["c"].startswith("std::shared_lock")
        for m in mx:
            out.append(("raii-" + {"lock": "acquire", "try": "try", "defer": "defer", "adopt": "adopt", "none": "defer"}[mode],
                        mutex_field_in(m, n.fr, g), g.canon(m, n.fr), shared, g.var_path(n.e, n.fr)))
    elif n.k == "dtor" and is_raii_class(n.e.get("c")):
        out.append(("raii-release", None, None, n.e["c"].startswith("std::shared_lock"), g.var_path(n.e, n.fr)))
    elif n.k == "call" and "obj" in n.e:
        nm = n.q.split("::")[-1]
        if nm in ("lock", "unlock", "try_lock", "try_lock_for", "try_lock_until", "lock_shared", "unlock_shared", "try_lock_shared", "try_lock_shared_for"):
            o = strip(n.e["obj"])
            t = o.get("t", "")
            if RAII.match(n.q) or is_raii_class(n.q):
                op = "raii-unlock" if nm == "unlock" else ("raii-lock" if nm == "lock" else "raii-relock-try")
                out.append((op, None, None, "shared_lock" in n.q, g.canon(o, n.fr)))
            elif re.search(r"(mutex)", n.q.rsplit("::", 1)[0]):
                op = "release" if nm.startswith("unlock") else ("try" if nm.startswith("try") else "acquire")
                out.append((op, mutex_field_in(o, n.fr, g), g.canon(o, n.fr), "shared" in nm, None))
    return out


def mutex_field_in(e, fr, g, d=0):
    """mutex_field, following parameters bound to arguments in inlined frames and local references."""
    e = strip(e)
    if isinstance(e, dict) and e.get("k") == "var" and e.get("id") and d < 8:
        kind, v, f = g.lookup(e["id"], fr)
        if kind == "env":
            return mutex_field_in(v[0], v[1], g, d + 1)
        if v and v.get("decl") and "init" in v["decl"] and v["decl"]["t"].endswith("&"):
            return mutex_field_in(v["decl"]["init"], f, g, d + 1)
    return mutex_field(e)


def sql_of(e):
    """Literal prefix of a SQL expression (first string constant on the left of concatenations)."""
    e = strip(e)
    while isinstance(e, dict):
        if e["k"] == "str":
            return e["v"]
        if e["k"] == "call" and e.get("op") == "+":
            a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
            e = strip(a[0])
        elif e["k"] == "ctor" and e.get("a"):
            e = strip(e["a"][0])
        elif e["k"] == "call" and e.get("q") in ("std::move",):
            e = strip(e["a"][0])
        else:
            return None
    return None


def strings_in(e):
    return [x["v"] for x in walk(e) if x.get("k") == "str"]


def calls_in(fn, q=None, pred=None, logs=False):
    for e in fn_exprs(fn, logs):
        if e.get("k") in ("call", "ctor") and (q is None or e.get("q") == q or (isinstance(q, (set, tuple, list)) and e.get("q") in q)):
            if pred is None or pred(e):
                yield e


def squery_sql(g, n):
    """For a call node of SQuery(db, sql, ...): literal SQL prefix (following a local's initialiser), else None."""
    a = n.e.get("a", [])
    if len(a) < 2:
        return None
    return sql_text(a[1], n.fr, g)


def sql_text(e, fr, g, d=0):
    s = sql_of(e)
    if s is not None:
        return s
    e = strip(e)
    # leftmost operand
    while isinstance(e, dict) and e.get("k") == "call" and e.get("op") == "+":
        a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
        e = strip(a[0])
    while isinstance(e, dict) and e.get("k") == "ctor" and e.get("a"):
        e = strip(e["a"][0])
    if isinstance(e, dict) and e.get("k") == "cond":
        return sql_text(e["x"], fr, g, d + 1)
    if isinstance(e, dict) and e.get("k") == "var" and e.get("id") and d < 6:
        kind, v, f = g.lookup(e["id"], fr)
        if kind == "env":
            return sql_text(v[0], v[1], g, d + 1)
        if v and v.get("decl") and "init" in v["decl"]:
            return sql_text(v["decl"]["init"], f, g, d + 1)
    return None


class Simple:
    """Rule base: events are produced by node(); default automaton None."""

    def __init__(self):
        self.out = []

    def init(self):
        return None

    def track(self, s):
        return False

    def node(self, n, a, facts, x):
        return a


def owner_fn(ctx, fn):
    return ctx.p.outer(fn)


def written(n, g):
    """Fields (qualified) whose value node n replaces or modifies: list of (field q, path, const, canon)."""
    out = []
    e = n.e
    if n.k == "assign" and isinstance(e, dict):
        t = e.get("x") if e.get("k") == "bin" else (e.get("e") if e.get("k") == "un" else e.get("obj"))
        f = mutex_field_in(t, n.fr, g) if t is not None else None
        if f and n.x:
            out.append((f, n.x[0], n.x[1], n.x[2]))
    elif n.k in ("call", "icall") and e.get("k") == "call" and e.get("op") in ("=", "+=", "-=", "++", "--") and "obj" in e:
        f = mutex_field_in(e["obj"], n.fr, g)
        c = const_of(e["a"][0]) if e.get("a") and e["op"] == "=" else None
        v = g.canon(e["a"][0], n.fr) if e.get("a") and e["op"] == "=" else None
        if f:
            out.append((f, g.canon(e["obj"], n.fr), c, v))
    elif n.k == "call" and e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] in MUTATORS and not e.get("q", "").startswith("S"):
        f = mutex_field_in(e["obj"], n.fr, g)
        nm = e["q"].split("::")[-1]
        if f:
            out.append((f, g.canon(e["obj"], n.fr), 'c:""' if nm == "clear" else None, None))
    return out


MUTATORS = {"clear", "erase", "insert", "emplace", "emplace_back", "emplace_front", "push_back", "push_front", "pop_back", "pop_front", "pop", "push",
            "insert_or_assign", "append", "assign", "swap", "reset", "extract", "splice", "merge", "try_emplace", "resize", "store", "fetch_add", "fetch_sub", "exchange", "remove", "remove_if", "sort", "test_and_set"}


class Flow(Simple):
    """Token automaton: state is a frozenset of tokens. Subclasses / callers give:
    events(n, tokens, facts, x) -> new tokens (or STOP), tracked: regex of fact texts to keep, at(n, tokens, facts, x) check."""

    def __init__(self, events=None, track=None, start=frozenset(), edges=None, only=None):
        super().__init__()
        self.only = re.compile(only) if only else None
        self._events, self._start = events, frozenset(start)
        self._track = re.compile(track) if isinstance(track, str) else track
        self._edges = edges
        if edges is not None:
            self.edge = self._edge

    def init(self):
        return self._start

    def track(self, s):
        if self._track is None:
            return False
        if hasattr(self._track, "search"):
            return self._track.search(s) is not None
        return self._track(s)

    def node(self, n, a, facts, x):
        return self._events(n, a, facts, x)

    def _edge(self, n, lab, m, a, facts, x):
        return self._edges(n, lab, m, a, facts, x)


def flags_of(g, pred):
    """Paths of local booleans set from an expression one of whose parts satisfies pred(e, frame)."""
    out = set()
    for n in g.nodes:
        if n.k in ("decl", "assign") and n.x and n.x[1] in ("c:true", "c:false") and isinstance(n.e, dict) and "#" in n.x[0]:
            src = n.e.get("init") or n.e.get("y") or (n.e.get("a") or [None])[0]
            if isinstance(src, dict) and any(pred(e, n.fr) for e in walk(src)):
                out.add(n.x[0])
    return out


def paths_re(*sets):
    """Regular expression of facts that start with one of the paths."""
    s = sorted(set().union(*sets))
    return r"^(%s)(\||$)" % "|".join(re.escape(x) for x in s) if s else r"$^"


def set_from(g, names):
    """Paths of locals whose value comes (somewhere) from a call of one of the functions."""
    out = set()
    for n in g.nodes:
        if n.k in ("decl", "assign") and n.x and "#" in n.x[0] and isinstance(n.e, dict):
            src = strip(n.e.get("init") or n.e.get("y") or {})
            if isinstance(src, dict) and src.get("k") == "call" and src.get("q", "") in names:
                out.add(n.x[0])
    return out


def origin(e, fr, g, d=0):
    """Follow an expression to where its value comes from: single-assignment locals, accessors, copies and moves."""
    e = strip(e)
    if not isinstance(e, dict) or d > 25:
        return e, fr
    k = e["k"]
    if k == "var" and e.get("id"):
        kind, v, f = g.lookup(e["id"], fr)
        if kind == "env":
            return origin(v[0], v[1], g, d + 1)
        if v and v.get("decl") and "init" in v["decl"] and not v.get("range") and (not v["assigned"] or v["decl"]["t"].endswith("&")):
            i = v["decl"]["init"]
            if isinstance(i, dict):
                return origin(i, f, g, d + 1)
        return e, fr
    if k == "ctor":
        a = [x for x in e.get("a", ()) if x.get("k") != "defarg"]
        if len(a) == 1 and (e.get("copy") or e.get("move")):
            return origin(a[0], fr, g, d + 1)
        return e, fr
    if k == "call":
        if e.get("q") in ("std::move", "std::forward", "std::ref", "std::as_const") and e.get("a"):
            return origin(e["a"][0], fr, g, d + 1)
        nm = e.get("q", "").split("::")[-1]
        if e.get("q", "").startswith("std::") and "obj" in e and not [a for a in e.get("a", ()) if a.get("k") != "defarg"] and (nm in ("get", "load") or nm.startswith("operator ") or e.get("op") in ("*", "->")):
            return origin(e["obj"], fr, g, d + 1)
        t = g.p.targets(e)
        if len(t) == 1 and not e.get("v"):
            f = g.p.fns[t[0]]
            r = g.accessor_expr(f)
            if r is None:
                # single return statement of a value loaded from a member (atomic load)
                b = [s for s in f["body"].get("s", ()) if s["k"] not in ("null", "log")]
                if len(b) == 1 and b[0]["k"] == "return" and "e" in b[0]:
                    r = b[0]["e"]
            if r is not None:
                nf = Frame(f, fr, None, e)
                nf.uid = -abs(hash((id(e), fr.uid, "o"))) - 1
                for p, a in zip(f["p"], e.get("a", ())):
                    nf.env[p["id"]] = (a, fr)
                nf.this = (e["obj"], fr) if "obj" in e else ({"k": "this"}, fr)
                return origin(r, nf, g, d + 1)
        return e, fr
    if k == "un" and e["op"] in ("*", "&"):
        return origin(e["e"], fr, g, d + 1)
    return e, fr


def origin_field(e, fr, g):
    o, f = origin(e, fr, g)
    return mutex_field_in(o, f, g) if isinstance(o, dict) and o.get("k") in ("mem", "var") else None


def all_values(e, fr, g, d=0):
    """Every expression a local variable may have been given (flow-insensitive); others: [(e, fr)]."""
    e = strip(e)
    if isinstance(e, dict) and e["k"] == "var" and e.get("id") and d < 10:
        kind, v, f = g.lookup(e["id"], fr)
        if kind == "env":
            return all_values(v[0], v[1], g, d + 1)
        out = []
        if v and v.get("decl") and isinstance(v["decl"].get("init"), dict):
            out += all_values(v["decl"]["init"], f, g, d + 1)
        for x in fn_exprs(f.fn):
            if is_assign(x) and strip(x["x"]).get("id") == e["id"]:
                out += all_values(x["y"], f, g, d + 1) if x["op"] == "=" else [(x, f)]
            elif x.get("k") == "call" and x.get("op") == "=" and "obj" in x and strip(x["obj"]).get("id") == e["id"]:
                out += all_values(x["a"][0], f, g, d + 1)
        return out or [(e, fr)]
    if isinstance(e, dict) and e["k"] == "cond":
        return all_values(e["x"], fr, g, d + 1) + all_values(e["y"], fr, g, d + 1)
    return [(e, fr)]


def linear(e, fr, g, d=0):
    """Linear form (frozenset of (origin text, coefficient), constant) or None."""
    e = strip(e)
    if not isinstance(e, dict) or d > 20:
        return None
    if e["k"] in ("int", "char"):
        try:
            return {}, int(e["v"])
        except ValueError:
            return None
    if e["k"] == "bin" and e["op"] in ("+", "-"):
        a, b = linear(e["x"], fr, g, d + 1), linear(e["y"], fr, g, d + 1)
        if a is None or b is None:
            return None
        s = 1 if e["op"] == "+" else -1
        r = dict(a[0])
        for k, v in b[0].items():
            r[k] = r.get(k, 0) + s * v
        return {k: v for k, v in r.items() if v}, a[1] + s * b[1]
    if e["k"] == "var" and e.get("id"):
        vals = all_values(e, fr, g)
        if len(vals) >= 1 and not (len(vals) == 1 and vals[0][0] is e):
            ls = [linear(v, f, g, d + 1) for v, f in vals]
            if all(l is not None and l == ls[0] for l in ls):
                return ls[0]
    o, f = origin(e, fr, g)
    if o is not e and isinstance(o, dict) and o["k"] in ("bin", "int"):
        return linear(o, f, g, d + 1)
    fld = mutex_field_in(o, f, g) if isinstance(o, dict) and o.get("k") in ("mem",) else None
    return {fld or g.canon(o, f): 1}, 0


def call_args(n):
    return [a for a in n.e.get("a", ()) if isinstance(a, dict) and a.get("k") != "defarg"]


def held_locks(start=()):
    """Transfer function for a token set of ('L', field, path, raii) / ('S', ...) shared."""
    def tr(n, toks, g):
        for op, fld, path, sh, rp in lock_ops(n, g):
            kind = "S" if sh else "L"
            if op in ("raii-acquire", "raii-adopt"):
                toks = frozenset(t for t in toks if not (op == "raii-adopt" and t[0] in "LS" and t[2] == path)) | {(kind, fld, path, rp)}
            elif op == "raii-defer":
                toks = toks | {("D", fld, path, rp)}
            elif op == "raii-try":      # held or not: owns_lock() tells
                toks = toks | {("Y" if kind == "L" else "Z", fld, path, rp)}
            elif op == "raii-lock" or op == "raii-relock-try":
                toks = frozenset(((kind,) + t[1:]) if t[0] in "DYZ" and t[3] == rp else t for t in toks)
            elif op == "raii-unlock":
                toks = frozenset((("D",) + t[1:]) if t[0] in "LSYZ" and t[3] == rp else t for t in toks)
            elif op == "raii-release":
                toks = frozenset(t for t in toks if not (t[0] in "LSDYZ" and t[3] == rp))
            elif op == "acquire":
                toks = toks | {(kind, fld, path, None)}
            elif op == "release":
                toks = frozenset(t for t in toks if not (t[0] in ("L", "S") and t[1] == fld and t[3] is None and t[2] == path))
        return toks
    return tr


HELD = held_locks()


def owns_edge(n, lab, t, g):
    """`guard.owns_lock()` on a guard of this function is what the tokens say; STOP on the edge that contradicts them."""
    if n.k != "branch" or lab not in ("T", "F") or not n.x:
        return t
    e = strip(n.e) if isinstance(n.e, dict) else None
    pol = True
    while isinstance(e, dict) and e.get("k") == "un" and e.get("op") == "!":
        e, pol = strip(e["e"]), not pol
    if isinstance(e, dict) and e.get("k") == "call" and "obj" in e and RAII.match(e.get("q", "")) and e["q"].split("::")[-1] in ("owns_lock", "operator bool"):
        v = strip(e["obj"])
        if isinstance(v, dict) and v.get("k") == "var" and v.get("vk") != "param":
            path = g.canon(v, n.fr)
            known = [y for y in t if y[0] in "LSDYZ" and len(y) > 3 and y[3] == path]
            if any(y[0] in "YZ" for y in known):
                to = {"Y": "L", "Z": "S"} if (lab == "T") == pol else {"Y": "D", "Z": "D"}
                return frozenset((to.get(y[0], y[0]),) + y[1:] if y in known else y for y in t)
            if known:
                held = any(y[0] in "LS" for y in known)
                if held != ((lab == "T") == pol):
                    return STOP
    return t


def holds(toks, field, shared_ok=False):
    return any(t[0] == "L" and t[1] == field or (shared_ok and t[0] == "S" and t[1] == field) for t in toks)


# ---- string / code tables: deciding a branch for one concrete value of a variable
NEG = {"==": "!=", "!=": "=="}


def literals(e, fr, g, d=0):
    """Constant elements of a container expression (initialiser lists of locals, statics, globals), or None."""
    e = strip(e)
    if not isinstance(e, dict) or d > 10:
        return None
    if e["k"] == "var":
        if e.get("id"):
            kind, v, f = g.lookup(e["id"], fr)
            if kind == "env":
                return literals(v[0], v[1], g, d + 1)
            if v and v.get("decl") and "init" in v["decl"]:
                return literals(v["decl"]["init"], f, g, d + 1)
        gl = g.p.globals.get(e.get("q"))
        if gl and "init" in gl:
            return literals(gl["init"], fr, g, d + 1)
        return None
    if e["k"] == "mem":
        gl = g.p.globals.get(e.get("q"))
        return literals(gl["init"], fr, g, d + 1) if gl and "init" in gl else None
    if e["k"] in ("init", "ctor"):
        out = []
        for x in e.get("a", ()):
            x = strip(x)
            c = const_of(x)
            if c is not None:
                out.append(c)
            elif isinstance(x, dict) and x.get("k") in ("init", "ctor", "cast"):
                r = literals(x, fr, g, d + 1)
                if r:
                    out += r
        return out
    if e["k"] == "call" and e.get("op") in ("*",) and "obj" in e:
        return literals(e["obj"], fr, g, d + 1)
    return None


def decide(e, fr, g, subject, value):
    """Truth of a condition when the variable whose canonical path is `subject` has constant `value` ('c:..'); None if it does not tell."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    k = e["k"]

    def is_subj(x):
        c = g.canon(x, fr)
        return c == subject or origin_canon(x, fr, g) == subject or re.fullmatch(r"(std::)?(__cxx11::)?basic_string(_view)?(<.*>)?\{%s\}" % re.escape(subject), c) is not None
    if k == "un" and e["op"] == "!":
        r = decide(e["e"], fr, g, subject, value)
        return None if r is None else not r
    if k == "var" and e.get("t", "") in ("bool", "const bool"):
        return None
    op = x = y = None
    if k == "bin" and e["op"] in ("==", "!="):
        op, x, y = e["op"], e["x"], e["y"]
    elif k == "call" and e.get("op") in ("==", "!="):
        a = ([e["obj"]] if "obj" in e else []) + e.get("a", [])
        if len(a) == 2:
            op, x, y = e["op"], a[0], a[1]
    if op:
        for u, v in ((x, y), (y, x)):
            c = const_of(v)
            if c is not None and is_subj(u):
                return (c == value) == (op == "==")
            su = strip(u)
            # strcmp(...) == 0, find(...) == end(), count(...) == 0
            if isinstance(su, dict) and su.get("k") == "call":
                r = decide(su, fr, g, subject, value)
                if r is not None and const_of(v) == "c:0":
                    return (not r) == (op == "==")
                m = su.get("q", "").split("::")[-1]
                sv = strip(v)
                if m == "find" and isinstance(sv, dict) and sv.get("k") == "call" and sv.get("q", "").split("::")[-1] in ("end", "cend") and su.get("a") and is_subj(su["a"][0]):
                    l = literals(su["obj"], fr, g)
                    if l is not None:
                        return (value in l) == (op == "!=")
            if isinstance(su, dict) and su.get("k") == "var":
                o, of = origin(su, fr, g)
                if isinstance(o, dict) and o.get("k") == "call" and o.get("q", "").split("::")[-1] == "find" and o.get("a") and g.canon(o["a"][0], of) == subject:
                    l = literals(o["obj"], of, g)
                    if l is not None:
                        return (value in l) == (op == "!=")
        return None
    if k == "call":
        nm = e.get("q", "").split("::")[-1]
        a = e.get("a", [])
        if nm in ("strcmp", "strcasecmp") and len(a) == 2:
            for u, v in ((a[0], a[1]), (a[1], a[0])):
                c = const_of(v)
                if c is not None and is_subj(u):
                    return c != value
        if nm == "SIEquals" and len(a) == 2:
            for u, v in ((a[0], a[1]), (a[1], a[0])):
                c = const_of(v)
                if c is not None and is_subj(u):
                    return c.lower() == value.lower()
        if nm in ("count", "contains") and "obj" in e and a and is_subj(a[0]):
            l = literals(e["obj"], fr, g)
            if l is not None:
                return value in l
        if nm in ("SContains",) and len(a) == 2 and is_subj(a[1]):
            l = literals(a[0], fr, g)
            if l is not None:
                return value in l
        if "obj" in e and e.get("op") in ("bool", None) and nm.startswith("operator"):
            return decide(e["obj"], fr, g, subject, value)
    return None


def origin_canon(e, fr, g):
    o, f = origin(e, fr, g)
    return g.canon(o, f) if isinstance(o, dict) else None


def decide_edge(subjects):
    """Edge filter for Flow: prunes branches contradicting concrete values of variables {path: const}."""
    from .core import STOP

    def edge(n, lab, m, a, facts, x):
        if n.k == "branch" and lab in ("T", "F"):
            for s, v in subjects.items():
                r = decide(n.e, n.fr, x.g, s, v)
                if r is not None and r != (lab == "T"):
                    return STOP
        elif n.k == "switch" and isinstance(lab, tuple):
            for s, v in subjects.items():
                if n.x == s or origin_canon(n.e.get("c"), n.fr, x.g) == s:
                    if lab[0] == "case" and lab[1] != v:
                        return STOP
                    if lab[0] != "case" and v in lab[1]:
                        return STOP
        return a
    return edge
