"""Analysis engine: resolved program, call graph, effect summaries, inlined control-flow graphs with exceptional edges and
scope-exit destructors, path-sensitive exploration with condition facts. Nothing of /repo is executed."""
import re, sys
from collections import defaultdict, deque
from .facts import load, Broken

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------------------------------------ expression utilities
EXPR_CHILD = ("obj", "fe", "b", "x", "y", "e", "c", "i")


def children(e):
    """Sub-expressions of an expression in evaluation order (not into lambda bodies)."""
    if not isinstance(e, dict):
        return
    k = e.get("k")
    if k == "call":
        if "fe" in e:
            yield e["fe"]
        if "obj" in e:
            yield e["obj"]
        for a in e.get("a", ()):
            yield a
        return
    if k == "bin" and (e["op"] == "=" or (e["op"].endswith("=") and e["op"] not in ("==", "!=", "<=", ">="))):
        yield e["y"]
        yield e["x"]
        return
    if k == "lambda":
        for c in e.get("cap", ()):
            if "init" in c:
                yield c["init"]
        return
    for n in ("b", "c", "x", "y", "e", "i"):
        v = e.get(n)
        if isinstance(v, dict):
            yield v
    for a in e.get("a", ()):
        if isinstance(a, dict):
            yield a


def walk(e):
    if not isinstance(e, dict):
        return
    yield e
    for c in children(e):
        if c is not None:
            yield from walk(c)
    if e.get("k") == "stmtexpr":
        for x in walk_stmt_exprs(e["s"]):
            yield x


def stmts(s):
    """All statements under s, s included (not into lambda bodies)."""
    if not isinstance(s, dict):
        return
    yield s
    for n in ("s",):
        v = s.get(n)
        if isinstance(v, list):
            for x in v:
                yield from stmts(x)
        elif isinstance(v, dict):
            yield from stmts(v)
    for n in ("init", "t", "f", "body"):
        v = s.get(n)
        if isinstance(v, dict) and (n != "init" or s.get("k") in ("for", "if")):
            yield from stmts(v)
    for h in s.get("h", ()):
        yield from stmts(h["body"])


def own_exprs(s):
    """Top-level expressions of one statement."""
    k = s.get("k")
    if k == "decl":
        for v in s["v"]:
            if "init" in v:
                yield v["init"]
    elif k == "rangefor":
        yield s["range"]
    elif k == "log":
        if "msg" in s:
            yield s["msg"]
        for p in s.get("params", ()):
            yield p
    elif k == "abort":
        if "msg" in s:
            yield s["msg"]
    else:
        if isinstance(s.get("cv"), dict) and "init" in s["cv"]:
            yield s["cv"]["init"]
        for n in ("c", "e", "inc", "v"):
            if isinstance(s.get(n), dict):
                yield s[n]


def walk_stmt_exprs(s, logs=True):
    for st in stmts(s):
        if not logs and st.get("k") in ("log", "abort"):
            continue
        for e in own_exprs(st):
            yield from walk(e)


def fn_exprs(fn, logs=False):
    for i in fn.get("inits", ()):
        if "e" in i:
            yield from walk(i["e"])
    yield from walk_stmt_exprs(fn["body"], logs)


def is_assign(e):
    return e.get("k") == "bin" and (e["op"] == "=" or (e["op"][-1] == "=" and e["op"] not in ("==", "!=", "<=", ">=")))


def strip(e):
    while isinstance(e, dict) and e.get("k") in ("cast", "defarg") and isinstance(e.get("e"), dict):
        e = e["e"]
    return e


def const_of(e):
    """Constant value of an expression or None; returned as a canonical string 'c:...'."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    k = e["k"]
    if k == "int" or k == "char":
        return "c:%s" % e["v"]
    if k == "bool":
        return "c:true" if e["v"] else "c:false"
    if k == "null":
        return "c:null"
    if k == "enum":
        return "c:" + e["q"]
    if k == "str":
        return "c:\"%s\"" % e["v"]
    if k == "un" and e["op"] == "-":
        c = const_of(e["e"])
        if c and re.match(r"c:\d+$", c):
            return "c:-" + c[2:]
    if k == "ctor" and len(e.get("a", ())) >= 1 and ("basic_string" in e.get("c", "")):
        return const_of(e["a"][0])
    if k == "ctor" and not e.get("a") and "basic_string" in e.get("c", ""):
        return "c:\"\""
    return None


LOCK_RAII = ("std::lock_guard", "std::unique_lock", "std::shared_lock", "std::scoped_lock")


OPAQUE = {"SData::isSet"}      # the rules ask for these tests by name


class Prog:
    def __init__(self):
        d = load()
        self.fns = d["functions"]
        self.enums = d["enums"]
        self.globals = d["globals"]
        self.records = d["records"]
        self.decls = d["decls"]
        self.units = d["units"]
        self.byq = defaultdict(list)
        self.byname = defaultdict(list)
        for f in self.fns.values():
            self.byq[f["q"]].append(f)
            self.byname[f["n"]].append(f)
        # overrides: method id -> ids that override it (transitively)
        self.overriders = defaultdict(set)
        direct = defaultdict(set)
        for i, f in list(self.fns.items()):
            for o in f.get("over", ()):
                direct[o].add(i)
        for i, f in self.decls.items():
            for o in f.get("over", ()):
                direct[o].add(i)
        for o in list(direct):
            seen, todo = set(), list(direct[o])
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                todo += direct.get(x, ())
            self.overriders[o] = seen
        # lambda ownership
        self.lambda_owner = {}
        self.lambda_expr = {}
        for f in self.fns.values():
            for e in fn_exprs(f, logs=True):
                if e.get("k") == "lambda":
                    self.lambda_owner[e["f"]] = f["id"]
                    self.lambda_expr[e["f"]] = e
        self._subs()
        self._callees = {}
        self._mod = None
        self._throws = None
        self._locals = {}

    # -- classes
    def _subs(self):
        self.bases = {q: [b for b in r["bases"]] for q, r in self.records.items()}

    def derives(self, a, b):
        if a == b:
            return True
        return any(self.derives(x, b) for x in self.bases.get(a, ()))

    def field_types(self):
        return {r["q"] + "::" + f["n"]: f["t"] for r in self.records.values() for f in r["fields"]}

    # -- lookup
    def fn(self, q, params=None):
        """The function with qualified name q (unique, or selected by a substring of its id)."""
        c = [f for f in self.byq.get(q, ()) if params is None or params in f["id"]]
        if not c:
            raise Broken("anchor function %s%s not found" % (q, "" if params is None else " (" + params + ")"))
        if len(c) > 1:
            raise Broken("anchor function %s is ambiguous: %s" % (q, [f["id"] for f in c]))
        return c[0]

    def fns_q(self, q):
        c = self.byq.get(q)
        if not c:
            raise Broken("anchor function %s not found" % q)
        return c

    def methods_of(self, cls):
        return [f for f in self.fns.values() if f.get("c") == cls]

    def outer(self, fn):
        """The named function a lambda is written in."""
        while fn.get("lambda"):
            o = self.lambda_owner.get(fn["id"])
            if o is None:
                return fn
            fn = self.fns[o]
        return fn

    # -- calls
    def targets(self, e):
        """Repo function ids a call/ctor expression may reach (virtual dispatch resolved over known overriders)."""
        f = e.get("f")
        if f is None:
            return []
        out = []
        if f in self.fns:
            out.append(f)
        if e.get("v"):
            out += [o for o in sorted(self.overriders.get(f, ())) if o in self.fns and o not in out]
        return out

    def callees(self, fid):
        if fid in self._callees:
            return self._callees[fid]
        out = set()
        f = self.fns[fid]
        for e in fn_exprs(f):
            if e.get("k") in ("call", "ctor"):
                out.update(self.targets(e))
            elif e.get("k") == "fref" and e["f"] in self.fns:
                out.add(e["f"])
            elif e.get("k") == "lambda" and e["f"] in self.fns:
                out.add(e["f"])
            elif e.get("k") == "delete" and e.get("c"):
                d = "%s::~%s()" % (e["c"], e["c"].split("::")[-1])
                if d in self.fns:
                    out.add(d)
        for st in stmts(f["body"]):
            if st.get("k") == "decl":
                for v in st["v"]:
                    if v.get("d") in self.fns:
                        out.add(v["d"])
        self._callees[fid] = out
        return out

    def callers(self):
        if not hasattr(self, "_callers"):
            self._callers = defaultdict(set)
            for i in self.fns:
                for c in self.callees(i):
                    self._callers[c].add(i)
        return self._callers

    def reach(self, roots, stop=()):
        seen, todo = set(), list(roots)
        while todo:
            x = todo.pop()
            if x in seen or x not in self.fns or x in stop:
                continue
            seen.add(x)
            todo += self.callees(x)
        return seen

    # -- effect summaries
    NONMUT = re.compile(r"::(find|size|empty|begin|end|cbegin|cend|rbegin|rend|at|count|load|get|c_str|data|front|back|"
                        r"lower_bound|upper_bound|length|substr|compare|what|lock|unlock|try_lock|lock_shared|unlock_shared|"
                        r"contains|str|joinable|get_id|native_handle|second|first|owns_lock|value|has_value)$")

    def direct_mod(self, f):
        """Fields / globals directly written by function f (qualified names)."""
        out = set()
        for e in fn_exprs(f):
            t = None
            if is_assign(e):
                t = e["x"]
            elif e.get("k") == "un" and e["op"] in ("++", "--"):
                t = e["e"]
            elif e.get("k") == "call" and "obj" in e:
                d = self.decls.get(e.get("f"), {})
                if not d.get("const") and not d.get("repo") and not self.NONMUT.search(e.get("q", "")) and e.get("op") not in ("[]", "*", "->", "bool"):
                    t = e["obj"]
            elif e.get("k") == "un" and e["op"] == "&":
                t = None
            if t is not None:
                out |= self.lval_names(t)
            # by-reference arguments
            if e.get("k") in ("call", "ctor"):
                pt = self.decls.get(e.get("f"), {}).get("pt", ())
                for a, ty in zip(e.get("a", ()), pt):
                    if ty.endswith("&") and not ty.startswith("const ") and not ty.endswith("&&"):
                        out |= self.lval_names(a, shallow=True)
                    elif ty.endswith("*") and isinstance(a, dict) and a.get("k") == "un" and a["op"] == "&":
                        out |= self.lval_names(a["e"], shallow=True)
        return out

    def lval_names(self, t, shallow=False):
        t = strip(t)
        out = set()
        while isinstance(t, dict):
            k = t["k"]
            if k == "mem":
                out.add(t["q"])
                break
            if k == "var":
                if t.get("vk") == "global" or t.get("vk") == "slocal":
                    out.add(t["q"])
                break
            if k == "idx":
                t = strip(t["b"])
            elif k == "un" and t["op"] == "*":
                t = strip(t["e"])
            elif k == "call" and "obj" in t:
                t = strip(t["obj"])
            else:
                break
        return out

    def mod(self, fid):
        if self._mod is None:
            self._mod = self._closure({i: self.direct_mod(f) for i, f in self.fns.items()})
        return self._mod.get(fid, set())

    def _closure(self, direct):
        """Transitive union over the call graph (SCC condensation)."""
        order, index, low, stack, on, comp = [], {}, {}, [], set(), {}
        sccs = []
        counter = [0]
        for root in self.fns:
            if root in index:
                continue
            work = [(root, iter(sorted(self.callees(root))))]
            index[root] = low[root] = counter[0]; counter[0] += 1
            stack.append(root); on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = counter[0]; counter[0] += 1
                        stack.append(w); on.add(w)
                        work.append((w, iter(sorted(self.callees(w)))))
                        adv = True
                        break
                    elif w in on:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w); comp[w] = len(sccs)
                        if w == v:
                            break
                    sccs.append(c)
        res = {}
        for c in sccs:  # callees first
            s = set()
            for v in c:
                s |= direct[v]
                for w in self.callees(v):
                    if comp[w] != comp[v]:
                        s |= res[w]
            for v in c:
                res[v] = s
        return res

    def reaches(self, direct_pred):
        """Set of function ids that transitively contain a function for which direct_pred(f) holds."""
        d = {i: ({1} if direct_pred(f) else set()) for i, f in self.fns.items()}
        r = self._closure(d)
        return {i for i, s in r.items() if s}

    # -- exceptions
    THROWING_EXT = re.compile(r"^std::(__cxx11::)?(stoi|stol|stoll|stoul|stoull|stof|stod)$|::at$|^std::filesystem::|^std::regex|std::any_cast|^std::get$")

    def open_virtual(self, e):
        """Virtual call that code outside this repository (plugins) may implement."""
        return bool(e.get("v")) and re.match(r"(BedrockCommand|BedrockPlugin|SQLiteCommand|SQLiteServer::notify|SStandaloneHTTPSManager|SHTTPSManager)", e.get("q", "")) is not None

    def ext_throws(self, e):
        q = e.get("q", "")
        if q.startswith("std::function<") or q == "std::function::operator()" or (e.get("op") == "()" and "function" in q):
            return frozenset(["*"])
        if self.THROWING_EXT.search(q):
            return frozenset(["std::exception"])
        if q.startswith("std::thread::thread") and e.get("a") and not e.get("move"):
            return frozenset(["std::system_error"])     # when no more threads can be started
        return frozenset()

    def throws(self, fid):
        """Set of exception classes ('*' unknown) that may leave a function."""
        if self._throws is None:
            self._throws = {i: frozenset() for i in self.fns}
            # which functions matter: iterate to fixpoint
            callers = self.callers()
            todo = deque(self.fns)
            inq = set(self.fns)
            while todo:
                i = todo.popleft()
                inq.discard(i)
                n = self._throws_of(self.fns[i])
                if n != self._throws[i]:
                    self._throws[i] = n
                    for c in callers.get(i, ()):
                        if c not in inq:
                            inq.add(c)
                            todo.append(c)
        return self._throws.get(fid, frozenset())

    def call_throws(self, e):
        if e.get("k") == "throw":
            return frozenset([e.get("c") or e.get("t") or "*"])
        out = set()
        f = e.get("f")
        d = self.decls.get(f, {})
        if d.get("nx"):
            return frozenset()
        t = self.targets(e)
        for x in t:
            out |= self._throws[x] if self._throws else ()
        if self.open_virtual(e):
            out.add("*")
        if not t:
            if "fe" in e:
                # call of a function pointer / std::function value
                out.add("*")
            else:
                out |= self.ext_throws(e)
        return frozenset(out)

    # Functions whose only throwing paths are infeasible: constant, valid regular expressions (SRedactSensitiveValues) and
    # `.at(i)` inside the bounds of the loop just above it (SQuery).
    NOTHROW = {"SRedactSensitiveValues", "SQuery", "SLogStackTrace"}

    def _throws_of(self, f):
        if f["q"] in self.NOTHROW:
            return frozenset()
        if f.get("nx") and not f.get("isdtor"):
            return frozenset()
        if f.get("isdtor"):
            return frozenset()

        def ex(e):
            out = set()
            for x in walk(e):
                k = x.get("k")
                if k == "throw":
                    out.add(x.get("c") or x.get("t") or "*")
                elif k in ("call", "ctor"):
                    out |= self.call_throws(x)
            return out

        def st(s, caught):
            out = set()
            if not isinstance(s, dict):
                return out
            k = s.get("k")
            if k == "try":
                b = st(s["body"], caught)
                rem = set(b)
                for h in s["h"]:
                    if "c" not in h and "t" not in h:
                        hs = rem
                        rem = set()
                    else:
                        hc = h.get("c") or h.get("t")
                        hs = {t for t in rem if t == "*" or self.derives(t, hc) or (hc == "std::exception" and self.is_std_exc(t))}
                        rem = {t for t in rem if t == "*" or t not in hs}
                    out |= st(h["body"], frozenset(hs))
                return out | rem
            if k in ("log", "abort"):
                return out
            for e in own_exprs(s):
                r = ex(e)
                # rethrow
                for x in walk(e):
                    if x.get("k") == "throw" and "e" not in x:
                        r.discard("*")
                        r |= caught or {"*"}
                out |= r
            for n in ("s", "init", "t", "f", "body"):
                v = s.get(n)
                if isinstance(v, list):
                    for x in v:
                        out |= st(x, caught)
                elif isinstance(v, dict) and "k" in v and (n != "init" or k in ("for", "if")) and n != "t" or (n == "t" and isinstance(v, dict)):
                    out |= st(v, caught)
            return out
        out = st(f["body"], frozenset())
        for i in f.get("inits", ()):
            if "e" in i:
                out |= ex(i["e"])
        return frozenset(out)

    def is_std_exc(self, t):
        if t.startswith("std::"):
            return True
        return any(self.is_std_exc(b) for b in self.bases.get(t, ()))

    # -- local variable classification
    def local_info(self, fid):
        """For function fid (its lambdas included): id -> {'decl':decl,'assigned':n}."""
        if fid in self._locals:
            return self._locals[fid]
        info = {}
        f = self.fns[fid]

        def scan(fn):
            for p in fn["p"]:
                info.setdefault(p["id"], {"decl": None, "param": p, "assigned": 0})
            for s in stmts(fn["body"]):
                if s.get("k") == "decl":
                    for v in s["v"]:
                        info.setdefault(v["id"], {"decl": v, "assigned": 0})["decl"] = v
                elif s.get("k") == "rangefor":
                    info.setdefault(s["var"]["id"], {"decl": s["var"], "assigned": 1, "range": s["range"]})
                if isinstance(s.get("cv"), dict):
                    info.setdefault(s["cv"]["id"], {"decl": s["cv"], "assigned": 0})["decl"] = s["cv"]
            for e in fn_exprs(fn):
                t = []
                if is_assign(e):
                    t = [e["x"]]
                elif e.get("k") == "un" and e["op"] in ("++", "--", "&"):
                    t = [e["e"]]
                elif e.get("k") in ("call", "ctor"):
                    pt = self.decls.get(e.get("f"), {}).get("pt", ())
                    t = [a for a, ty in zip(e.get("a", ()), pt) if ty.endswith("&") and not ty.endswith("&&") and not ty.startswith("const ")]
                for x in t:
                    x = strip(x)
                    if isinstance(x, dict) and x.get("k") == "var" and x.get("id"):
                        info.setdefault(x["id"], {"decl": None, "assigned": 0})["assigned"] += 1
                if e.get("k") == "lambda" and e["f"] in self.fns:
                    scan(self.fns[e["f"]])
        scan(f)
        self._locals[fid] = info
        return info


# ------------------------------------------------------------------------------------------------------- control flow
class Frame:
    _n = 0

    def __init__(self, fn, parent=None, lex=None, call=None):
        self.fn = fn
        self.parent = parent     # calling frame
        self.lex = lex           # lexically enclosing frame (lambda)
        self.call = call
        self.env = {}            # param id -> (expr, frame)
        self.this = None         # (expr, frame)
        self.depth = 0 if parent is None else parent.depth + 1
        self.uid = 0
        self.ret = []            # dangling edges of returns

    def chain(self):
        f, out = self, []
        while f:
            out.append(f)
            f = f.parent
        return out


class Node:
    __slots__ = ("i", "k", "e", "fr", "l", "succ", "x", "pure")

    def __init__(self, i, k, e, fr, l, x=None):
        self.i, self.k, self.e, self.fr, self.l, self.x = i, k, e, fr, l, x
        self.succ = []

    @property
    def q(self):
        return self.e.get("q", "") if isinstance(self.e, dict) else ""

    def where(self):
        return "%s:%s" % (self.fr.fn["file"], self.l)

    def fname(self):
        return self.fr.fn["q"]


class Scope:
    __slots__ = ("parent", "kind", "data", "cur_cache")

    def __init__(self, parent, kind, data=None):
        self.parent, self.kind, self.data = parent, kind, data


BOOLT = ("bool",)
PURE_METHODS = re.compile(r"::(size|empty|load|get|c_str|length|begin|end|front|back|find|count|at|str|test|joinable|contains|owns_lock|value|has_value|operator.*|data)$")


class Graph:
    """Control-flow graph of one entry function with callees inlined according to a policy."""

    def __init__(self, prog, fn, inline=None, max_depth=6, max_nodes=60000, exc=True, bind_this=None, lambda_args=True, opaque_throw=None):
        self.p = prog
        self.nodes = []
        self.inline = inline or (lambda f, e, fr: False)
        self.max_depth = max_depth
        self.max_nodes = max_nodes
        self.exc = exc
        self.opaque_throw = opaque_throw
        self._uid = 0
        self.root_fn = fn
        self.root = Frame(fn)
        self.root.uid = 0
        self.frames = [self.root]
        self._exc_cache = {}
        self._ids = {}
        self._canon_cache = {}
        prog.throws(fn["id"])
        self.entry = self.new("entry", None, self.root, fn["l"])
        self.exit = self.new("exit", None, self.root, fn["end"])
        self.excexit = self.new("excexit", None, self.root, fn["end"])
        self.abort = self.new("abortexit", None, self.root, fn["end"])
        self.scope = None
        self.loops = []
        self.labels = {}
        self.inl = []
        self.inlined = set([fn["id"]])
        self.opaque = set()
        cur = self.body(fn, self.root, [(self.entry, None)])
        self.connect(cur + self.root.ret, self.exit)

    # -- plumbing
    def new(self, k, e, fr, l, x=None):
        n = Node(len(self.nodes), k, e, fr, l, x)
        self.nodes.append(n)
        if len(self.nodes) > self.max_nodes:
            raise Broken("graph of %s exceeds %d nodes" % (self.root_fn["q"], self.max_nodes))
        return n

    def connect(self, cur, n):
        for p, lab in cur:
            p.succ.append((n, lab))

    def add(self, cur, k, e, fr, l, x=None):
        n = self.new(k, e, fr, l, x)
        self.connect(cur, n)
        return n, [(n, None)]

    def throw_edge(self, node, types):
        if not self.exc or not types:
            return
        node.succ.append((self.exc_target(self.scope, frozenset(types)), "exc"))

    def exc_target(self, scope, types):
        key = (id(scope), types)
        if key in self._exc_cache:
            return self._exc_cache[key][0]
        start = self.new("unwind", None, self.root, 0, types)
        self._exc_cache[key] = (start, scope)
        cur = [(start, None)]
        s = scope
        rem = set(types)
        saved = self.scope
        while s is not None:
            if s.kind == "var":
                self.scope = s.parent
                cur = self.emit_dtor(s.data[0], s.data[1], cur)
            elif s.kind == "try":
                for entry, h in s.data:
                    if "c" not in h and "t" not in h:
                        self.connect(cur, entry)
                        rem = set()
                        break
                    hc = h.get("c") or h.get("t")
                    sure = {t for t in rem if t != "*" and (self.p.derives(t, hc) or (hc == "std::exception" and self.p.is_std_exc(t)))}
                    if sure or "*" in rem:
                        self.connect(cur, entry)
                    rem -= sure
                    if not rem:
                        break
                if not rem:
                    cur = []
                    break
                u = self.new("unwind", None, self.root, 0, frozenset(rem))
                self.connect(cur, u)
                cur = [(u, None)]
            elif s.kind == "frame" and s.data.fn.get("nx") and not s.data.fn.get("isdtor"):
                self.connect(cur, self.abort)
                cur = []
                break
            s = s.parent
        self.scope = saved
        if cur:
            self.connect(cur, self.excexit)
        return start

    def emit_dtor(self, v, fr, cur):
        d = v.get("d")
        n, cur = self.add(cur, "dtor", v, fr, v.get("l", 0))
        f = self.p.fns.get(d)
        if f is not None:
            e = {"k": "call", "f": d, "q": f["q"], "a": [], "obj": {"k": "var", "n": v["n"], "id": v["id"], "vk": "local", "t": v["t"]}, "l": v.get("l", 0), "t": "void"}
            if self.want_inline(f, e, fr):
                cur = self.inline_call(f, e, fr, cur)
        return cur

    def unwind(self, upto, cur):
        s = self.scope
        saved = s
        while s is not None and s is not upto:
            if s.kind == "var":
                self.scope = s.parent
                cur = self.emit_dtor(s.data[0], s.data[1], cur)
            s = s.parent
        self.scope = saved
        return cur

    # -- functions
    def want_inline(self, f, e, fr):
        if fr.depth + 1 > self.max_depth:
            return False
        if any(x.fn["id"] == f["id"] for x in fr.chain()):
            return False
        return bool(self.inline(f, e, fr))

    def body(self, fn, fr, cur):
        base = self.scope
        self.scope = Scope(base, "frame", fr)
        fr.base = self.scope
        for i in fn.get("inits", ()):
            if "e" in i:
                cur = self.ev(i["e"], fr, cur)
                if "q" in i:
                    this = fr.this if fr.this else ({"k": "this"}, fr)
                    path = self.canon({"k": "mem", "n": i["m"], "q": i["q"], "b": {"k": "this"}, "t": ""}, fr)
                    n, cur = self.add(cur, "assign", {"k": "bin", "op": "=", "x": {"k": "mem", "n": i["m"], "q": i["q"], "b": {"k": "this"}, "t": ""}, "y": i["e"], "l": fn["l"], "init": True}, fr, fn["l"], (path, const_of(i["e"]), self.canon(i["e"], fr)))
        cur = self.st(fn["body"], fr, cur)
        self.scope = base
        return cur

    def bind(self, f, e, fr):
        nf = Frame(f, fr, None, e)
        self._uid += 1
        nf.uid = self._uid
        self.frames.append(nf)
        if f.get("lambda"):
            own = self.p.lambda_owner.get(f["id"])
            x = fr
            while x is not None and x.fn["id"] != own:
                x = x.parent
            # a lambda value passed down: its frame of definition may be stored with it
            nf.lex = e.get("_lexframe") or x or fr
            le = self.p.lambda_expr.get(f["id"])
            if le:
                for c in le.get("cap", ()):
                    if "init" in c and "id" in c:
                        nf.env[c["id"]] = (c["init"], nf.lex)
        args = e.get("a", [])
        for p, a in zip(f["p"], args):
            nf.env[p["id"]] = (a, fr)
        if "obj" in e and e["obj"] is not None and not f.get("lambda"):
            nf.this = (e["obj"], fr)
        elif f.get("lambda"):
            nf.this = None
        elif f.get("c") and not f.get("static"):
            nf.this = e.get("_this") or None
        return nf

    def inline_call(self, f, e, fr, cur):
        self.inlined.add(f["id"])
        nf = self.bind(f, e, fr)
        e.setdefault("_rets", {})
        n, cur = self.add(cur, "enter", e, nf, e.get("l", 0))
        saved_loops, self.loops = self.loops, []
        cur = self.body(f, nf, cur)
        self.loops = saved_loops
        self._ids[(id(e), fr.uid)] = "ret%d" % nf.uid
        cur = cur + nf.ret
        n, cur = self.add(cur, "leave", e, nf, e.get("l", 0))
        return cur

    # -- canonical expressions
    def lookup(self, idv, fr):
        """Resolve a variable id to (kind, payload)."""
        f = fr
        while f is not None:
            if idv in f.env:
                return ("env", f.env[idv], f)
            info = self.p.local_info(f.fn["id"])
            if idv in info:
                # declared here, unless it is a captured variable of an enclosing frame
                own = any(p["id"] == idv for p in f.fn["p"]) or self.declared_in(f.fn, idv)
                if own or f.lex is None:
                    return ("own", info[idv], f)
            if f.lex is None:
                return ("own", info.get(idv), f)
            f = f.lex
        return ("own", None, fr)

    def declared_in(self, fn, idv):
        c = fn.get("_decls")
        if c is None:
            c = set(p["id"] for p in fn["p"])
            for s in stmts(fn["body"]):
                if s.get("k") == "decl":
                    c.update(v["id"] for v in s["v"])
                    for v in s["v"]:
                        c.update(b["id"] for b in v.get("binds", ()))
                elif s.get("k") == "rangefor":
                    c.add(s["var"]["id"])
                    c.update(b["id"] for b in s["var"].get("binds", ()))
                elif s.get("k") == "try":
                    c.update(h["id"] for h in s["h"] if "id" in h)
                if isinstance(s.get("cv"), dict):
                    c.add(s["cv"]["id"])
            fn["_decls"] = c
        return idv in c

    def canon(self, e, fr, d=0):
        if not isinstance(e, dict):
            return "?"
        if d > 40:
            return "..."
        key = (id(e), fr.uid)
        if key in self._canon_cache and key not in self._ids:
            return self._canon_cache[key][0]
        r = self._canon(e, fr, d)
        self._canon_cache[key] = (r, e)
        return r

    def _canon(self, e, fr, d):
        k = e["k"]
        c = const_of(e)
        if c is not None:
            return c
        if k in ("cast", "defarg"):
            return self.canon(e["e"], fr, d + 1)
        if k == "this":
            f = fr
            while f.fn.get("lambda") and f.lex is not None:
                f = f.lex
            if f.this is not None:
                return self.canon(f.this[0], f.this[1], d + 1)
            return "this" if f.parent is None else "this%d" % f.uid
        if k == "var":
            if e.get("vk") in ("global", "other"):
                return "::" + e.get("q", e["n"])
            kind, v, f = self.lookup(e.get("id"), fr)
            if kind == "env":
                info = self.p.local_info(f.fn["id"]).get(e["id"], {})
                pt = (info.get("param") or {}).get("t", "")
                if pt.endswith("&") or not info.get("assigned"):
                    return self.canon(v[0], v[1], d + 1)
            elif v and v.get("decl") and "init" in v["decl"] and v["decl"].get("t", "") and not v.get("range"):
                t = v["decl"]["t"]
                if t.endswith("&") or (t.endswith("*") and not v["assigned"] and self.pure(v["decl"]["init"])):
                    i = v["decl"]["init"]
                    if t.endswith("&") or self.pure(i):
                        return self.canon(i, f, d + 1)
            return "%s#%d" % (e["n"], f.uid)
        if k == "mem":
            return self.canon(e["b"], fr, d + 1) + "." + e["n"]
        if k == "un":
            if e["op"] == "*" and re.match(r"(const )?(bool$|std::atomic<)", e.get("t", "")):
                c = self.canon(e["e"], fr, d + 1)
                return c if "&" == c[:1] or strip(e["e"]).get("k") == "un" else "*" + c
            if e["op"] in ("*", "&"):
                return self.canon(e["e"], fr, d + 1)
            return e["op"] + self.canon(e["e"], fr, d + 1)
        if k == "idx":
            return "%s[%s]" % (self.canon(e["b"], fr, d + 1), self.canon(e["i"], fr, d + 1))
        if k == "bin":
            return "(%s%s%s)" % (self.canon(e["x"], fr, d + 1), e["op"], self.canon(e["y"], fr, d + 1))
        if k == "call":
            q = e.get("q", "")
            ret = self._ids.get((id(e), fr.uid))
            if ret:
                return ret
            n = q.split("::")[-1]
            if e.get("op") in ("->", "*") and not e.get("a") and "obj" in e:
                return self.canon(e["obj"], fr, d + 1)
            if n in ("get", "load", "operator bool", "c_str") and not [a for a in e.get("a", ()) if a.get("k") != "defarg"] and "obj" in e and q.startswith("std::"):
                o = strip(e["obj"])
                if n != "c_str" and q.startswith("std::atomic") and o.get("t", "").endswith("*"):
                    return "*" + self.canon(o, fr, d + 1)
                return self.canon(e["obj"], fr, d + 1)
            if "obj" in e and n.startswith("operator ") and q.startswith("std::") and not e.get("a"):
                return self.canon(e["obj"], fr, d + 1)
            if q in ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const") and e.get("a"):
                return self.canon(e["a"][0], fr, d + 1)
            if e.get("op") == "[]" and "obj" in e and e.get("a"):
                return "%s[%s]" % (self.canon(e["obj"], fr, d + 1), self.canon(e["a"][0], fr, d + 1))
            acc = self.accessor(e, fr, d)
            if acc:
                return acc
            args = ",".join(self.canon(a, fr, d + 1) for a in e.get("a", ()) if a.get("k") != "defarg")
            obj = self.canon(e["obj"], fr, d + 1) + "." if "obj" in e else ""
            nm = (n if obj else q) or ("fe:" + self.canon(e.get("fe"), fr, d + 1))
            if self.pure(e):
                return "%s%s(%s)" % (obj, nm, args)
            return "%s%s@%d.%d(%s)" % (obj, nm, e.get("l", 0), self.siteno(e), args)
        if k == "ctor":
            a = [x for x in e.get("a", ()) if x.get("k") != "defarg"]
            if (e.get("copy") or e.get("move")) and len(a) == 1:
                return self.canon(a[0], fr, d + 1)
            return "%s{%s}" % (e.get("c", ""), ",".join(self.canon(x, fr, d + 1) for x in a))
        if k == "cond":
            return "(%s?%s:%s)" % (self.canon(e["c"], fr, d + 1), self.canon(e["x"], fr, d + 1), self.canon(e["y"], fr, d + 1))
        if k == "lambda":
            return e["f"]
        if k == "init":
            return "{%s}" % ",".join(self.canon(x, fr, d + 1) for x in e.get("a", ()))
        if k == "fref":
            return "&" + e["q"]
        if k == "new":
            return "new %s" % e.get("t")
        return "%s" % k

    def siteno(self, e):
        m = self.__dict__.setdefault("_sites", {})
        if id(e) not in m:
            m[id(e)] = (len(m), e)
        return m[id(e)][0]

    def accessor(self, e, fr, d):
        """Expand a call to a const repo member whose whole body is `return <pure expr>` (a lock guard before it allowed)."""
        t = self.p.targets(e)
        if len(t) != 1 or e.get("v"):
            return None
        f = self.p.fns[t[0]]
        r = self.accessor_expr(f)
        if r is None:
            return None
        key = "acc%d" % id(e)
        nf = Frame(f, fr, None, e)
        nf.uid = -abs(hash((id(e), fr.uid))) - 1
        for p, a in zip(f["p"], e.get("a", ())):
            nf.env[p["id"]] = (a, fr)
        if "obj" in e:
            nf.this = (e["obj"], fr)
        elif f.get("c") and not f.get("static"):
            nf.this = ({"k": "this"}, fr)
        return self._canon(r, nf, d + 1)

    def accessor_expr(self, f):
        if "_acc" in f:
            return f["_acc"]
        f["_acc"] = None
        if f.get("lambda") or f.get("isctor") or f.get("isdtor") or f["q"] in OPAQUE:
            return None
        b = [s for s in f["body"].get("s", ()) if s["k"] not in ("null", "log")]
        while len(b) > 1 and b[0]["k"] == "decl" and all(v.get("c", "").startswith(LOCK_RAII) for v in b[0]["v"]):
            b = b[1:]
        if len(b) == 1 and b[0]["k"] == "return" and "e" in b[0]:
            r = b[0]["e"]
            if self.pure(r, deep=False):
                f["_acc"] = r
        return f["_acc"]

    def pure(self, e, deep=True, d=0):
        """No side effects and same value when evaluated again in the same state (syntactic under-approximation)."""
        if d > 30:
            return False
        for x in walk(e):
            k = x.get("k")
            if k == "call":
                q = x.get("q", "")
                if x.get("op") in ("[]", "*", "->", "==", "!=", "<", ">", "<=", ">=", "bool", "+", "-"):
                    continue
                if q.startswith("std::") and PURE_METHODS.search(q):
                    continue
                if q in ("std::move", "std::min", "std::max", "std::to_string", "SToStr", "SIEquals", "SStartsWith", "SContains", "SREMatch", "std::string::operator basic_string_view"):
                    continue
                t = self.p.targets(x)
                if len(t) == 1 and not x.get("v"):
                    f = self.p.fns[t[0]]
                    if f.get("const") and not self.p.mod(t[0]):
                        continue
                    if self.accessor_expr(f) is not None:
                        continue
                    if not f.get("c") and not self.p.mod(t[0]) and f["file"].startswith("libstuff/libstuff"):
                        continue
                else:
                    dd = self.p.decls.get(x.get("f"), {})
                    if dd.get("const") and x.get("v") and t and all(not self.p.mod(i) for i in t):
                        continue
                return False
            if k in ("throw", "new", "delete", "lambda", "stmtexpr") or is_assign(x) or (k == "un" and x["op"] in ("++", "--")):
                return False
        return True

    # -- condition atoms
    def atom(self, e, fr):
        """(atom, polarity) of a leaf condition."""
        e0 = e
        e = strip(e)
        k = e.get("k")
        if k == "un" and e["op"] == "!":
            a, p = self.atom(e["e"], fr)
            return a, not p
        if k == "call" and e.get("op") == "!" and "obj" in e:
            a, p = self.atom(e["obj"], fr)
            return a, not p
        op, x, y = None, None, None
        if k == "bin" and e["op"] in ("==", "!=", "<", ">", "<=", ">="):
            op, x, y = e["op"], e["x"], e["y"]
        elif k == "call" and e.get("op") in ("==", "!=", "<", ">", "<=", ">="):
            args = ([e["obj"]] if "obj" in e else []) + [a for a in e.get("a", ())]
            if len(args) == 2:
                op, x, y = e["op"], args[0], args[1]
        if op:
            cx, cy = self.canon(x, fr), self.canon(y, fr)
            # rewritten <=> / constants to the right
            if cx.startswith("c:") and not cy.startswith("c:"):
                cx, cy = cy, cx
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if cy in ("c:true", "c:false") and op in ("==", "!="):
                return ("t", cx), (cy == "c:true") == (op == "==")
            if cy in ("c:null",) and op in ("==", "!="):
                return ("t", cx), op == "!="
            if cy == 'c:""' and op in ("==", "!="):
                return ("eq", cx + ".size()", "c:0"), op == "=="
            if cy == "c:0" and cx.endswith(".size()"):
                if op in (">",):
                    return ("eq", cx, "c:0"), False
                if op in ("<=",):
                    return ("eq", cx, "c:0"), True
            if cy == "c:1" and cx.endswith(".size()"):
                if op == ">=":
                    return ("eq", cx, "c:0"), False
                if op == "<":
                    return ("eq", cx, "c:0"), True
            if op in ("==", "!="):
                if not cy.startswith("c:") and cy < cx:
                    cx, cy = cy, cx
                return ("eq", cx, cy), op == "=="
            if op == "<":
                return ("lt", cx, cy), True
            if op == ">=":
                return ("lt", cx, cy), False
            if op == ">":
                return ("lt", cy, cx), True
            return ("lt", cy, cx), False
        if k == "call" and e.get("q", "").endswith("::empty") and "obj" in e:
            return ("eq", self.canon(e["obj"], fr) + ".size()", "c:0"), True
        if k == "call" and e.get("q", "").endswith("::operator bool") and "obj" in e:
            return ("t", self.canon(e["obj"], fr)), True
        c = self.canon(e, fr)
        if c.startswith("!"):
            return ("t", c[1:]), False
        t = e.get("t", "")
        if c.endswith(".size()") or c.endswith(".length()"):
            return ("eq", c, "c:0"), False
        if re.match(r"^(const )?(unsigned )?(int|long|long long|char|short|unsigned)$", t):
            return ("eq", c, "c:0"), False
        return ("t", c), True

    # -- conditions
    def cond(self, e, fr, cur):
        """Build short-circuit evaluation; returns (true edges, false edges)."""
        s = strip(e)
        k = s.get("k")
        if k == "bool":
            return (cur, []) if s["v"] else ([], cur)
        if k == "int" :
            return (cur, []) if s["v"] else ([], cur)
        if k == "un" and s["op"] == "!":
            t, f = self.cond(s["e"], fr, cur)
            return f, t
        if k == "bin" and s["op"] == "&&":
            t1, f1 = self.cond(s["x"], fr, cur)
            if not t1:
                return [], f1
            t2, f2 = self.cond(s["y"], fr, t1)
            return t2, f1 + f2
        if k == "bin" and s["op"] == "||":
            t1, f1 = self.cond(s["x"], fr, cur)
            if not f1:
                return t1, []
            t2, f2 = self.cond(s["y"], fr, f1)
            return t1 + t2, f2
        if k == "bin" and s["op"] == ",":
            cur = self.ev(s["x"], fr, cur)
            return self.cond(s["y"], fr, cur)
        if k == "cond":
            t, f = self.cond(s["c"], fr, cur)
            t1, f1 = self.cond(s["x"], fr, t) if t else ([], [])
            t2, f2 = self.cond(s["y"], fr, f) if f else ([], [])
            return t1 + t2, f1 + f2
        cur = self.ev(s, fr, cur)
        if not cur:
            return [], []
        # accessor expansion: a pure boolean helper is tested as its own expression
        if k == "call" and (id(s), fr.uid) not in self._ids:
            tg = self.p.targets(s)
            if len(tg) == 1 and not s.get("v"):
                f = self.p.fns[tg[0]]
                r = self.accessor_expr(f)
                if r is not None and f["ret"] == "bool":
                    nf = self.bind(f, s, fr)
                    if nf.this is None and f.get("c") and not f.get("static") and not f.get("lambda"):
                        nf.this = ({"k": "this"}, fr)
                    return self.cond(r, nf, cur)
        at, pol = self.atom(s, fr)
        d = e
        while isinstance(d, dict) and d.get("k") in ("cast", "defarg") and isinstance(d.get("e"), dict):
            if d.get("ck") == "CXXDynamicCastExpr":     # null also when the pointer is not
                at, pol, s = ("t", "dynamic_cast<%s>(%s)" % (d.get("t", ""), self.canon(s, fr))), True, d
                break
            d = d["e"]
        n, _ = self.add(cur, "branch", s, fr, s.get("l", 0), (at, pol))
        return [(n, "T")], [(n, "F")]

    # -- expressions
    def ev(self, e, fr, cur):
        """Emit the nodes of evaluating e for effects."""
        if not isinstance(e, dict) or not cur:
            return cur
        k = e["k"]
        if k in ("var", "this", "str", "int", "char", "bool", "null", "float", "enum", "fref", "sizeof"):
            return cur
        if k == "bin":
            if e["op"] in ("&&", "||"):
                t, f = self.cond(e, fr, cur)
                return t + f
            if is_assign(e):
                return self.assign(e["x"], e["y"], e, fr, cur)
            cur = self.ev(e["x"], fr, cur)
            return self.ev(e["y"], fr, cur)
        if k == "un":
            cur = self.ev(e["e"], fr, cur)
            if e["op"] in ("++", "--"):
                n, cur = self.add(cur, "assign", e, fr, e.get("l", 0), (self.canon(e["e"], fr), None, None))
            return cur
        if k == "cond":
            t, f = self.cond(e["c"], fr, cur)
            return self.ev(e["x"], fr, t) + self.ev(e["y"], fr, f)
        if k in ("call", "ctor"):
            return self.call(e, fr, cur)
        if k == "throw":
            if "e" in e:
                cur = self.ev(e["e"], fr, cur)
            ty = frozenset([e.get("c") or e.get("t") or "*"]) if "e" in e else self.current_caught(fr)
            n, _ = self.add(cur, "throw", e, fr, e.get("l", 0))
            n.succ.append((self.exc_target(self.scope, ty), "exc"))
            return []
        if k == "lambda":
            for c in e.get("cap", ()):
                if "init" in c:
                    cur = self.ev(c["init"], fr, cur)
            return cur
        if k == "stmtexpr":
            return self.st(e["s"], fr, cur)
        for c in children(e):
            cur = self.ev(c, fr, cur)
        if k in ("new", "delete"):
            n, cur = self.add(cur, k, e, fr, e.get("l", 0))
            if k == "delete" and e.get("c"):
                d = "%s::~%s()" % (e["c"], e["c"].split("::")[-1])
                f = self.p.fns.get(d)
                if f is not None:
                    ce = e.setdefault("_dcall", {"k": "call", "f": d, "q": f["q"], "a": [], "obj": e["e"], "l": e.get("l", 0), "t": "void"})
                    if self.want_inline(f, ce, fr):
                        cur = self.inline_call(f, ce, fr, cur)
        return cur

    def current_caught(self, fr):
        s = self.scope
        while s is not None:
            if s.kind == "catch":
                return s.data
            s = s.parent
        return frozenset(["*"])

    def assign(self, x, y, e, fr, cur):
        ty = strip(x).get("t", "")
        op = e.get("op", "=")
        if op == "=" and ty == "bool" and self.complex_bool(y):
            t, f = self.cond(y, fr, cur)
            path = self.canon(x, fr)
            out = []
            for br, c in ((t, "c:true"), (f, "c:false")):
                if br:
                    n, o = self.add(br, "assign", e, fr, e.get("l", 0), (path, c, c))
                    out += o
            return out
        ce = self.as_cond(y) if op == "=" else None
        if ce is not None:
            t, f = self.cond(ce["c"], fr, cur)
            out = []
            for br, z in ((t, ce["x"]), (f, ce["y"])):
                br = self.ev(z, fr, br) if br else br
                if br:
                    n, o = self.add(br, "assign", e, fr, e.get("l", 0), (self.canon(x, fr), const_of(z), self.canon(z, fr)))
                    out += o
            return self.ev(x, fr, out)
        cur = self.ev(y, fr, cur)
        cur = self.ev(x, fr, cur)
        if not cur:
            return cur
        n, cur = self.add(cur, "assign", e, fr, e.get("l", 0), (self.canon(x, fr), const_of(y) if op == "=" else None, self.canon(y, fr) if op == "=" else None))
        return cur

    def atomic_assign(self, e, y, fr, cur):
        x = e["obj"]
        if y is not None:
            alts = None
            yy = strip(y)
            if "atomic<bool>" in e.get("q", "") and isinstance(yy, dict) and yy.get("k") in ("bin", "un") and self.complex_bool(y):
                t, f = self.cond(y, fr, cur)
                alts = [(br, "c:" + v, "c:" + v) for br, v in ((t, "true"), (f, "false")) if br]
            else:
                ce = self.as_cond(y)
                if ce is not None:
                    t, f = self.cond(ce["c"], fr, cur)
                    alts = []
                    for br, z in ((t, ce["x"]), (f, ce["y"])):
                        br = self.ev(z, fr, br) if br else br
                        if br:
                            alts.append((br, const_of(z), self.canon(z, fr)))
            if alts is not None:
                path = self.canon(x, fr)
                out = []
                for br, c, v in alts:
                    n, o = self.add(br, "assign", e, fr, e.get("l", 0), (path, c, v))
                    out += o
                return self.ev(x, fr, out) if out else out
        for c in children(e):
            if isinstance(c, dict):
                cur = self.ev(c, fr, cur)
        if not cur:
            return cur
        d = (self.canon(x, fr), None, None) if y is None else (self.canon(x, fr), None if "atomic<bool>" in e.get("q", "") and strip(y).get("k") != "bool" and self.complex_bool(y) else const_of(y), self.canon(y, fr))
        n, cur = self.add(cur, "assign", e, fr, e.get("l", 0), d)
        return cur

    def as_cond(self, e, d=0):
        """The conditional expression a value is copied from, if any."""
        e = strip(e)
        if not isinstance(e, dict) or d > 4:
            return None
        if e["k"] == "cond":
            return e
        if e["k"] == "ctor" and (e.get("copy") or e.get("move")) and len(e.get("a", ())) == 1:
            return self.as_cond(e["a"][0], d + 1)
        return None

    def complex_bool(self, y):
        y = strip(y)
        if not isinstance(y, dict):
            return False
        if y.get("k") == "var":
            return y.get("t", "").replace("const ", "").replace(" &", "") not in ("bool", "")
        return y.get("k") in ("call", "bin", "un", "cond", "mem") and not is_assign(y)

    def lambda_of(self, e, fr, d=0):
        """Resolve an expression to a lambda literal (with its frame) if it names one."""
        e = strip(e)
        if not isinstance(e, dict) or d > 8:
            return None
        if e["k"] == "lambda":
            return e, fr
        if e["k"] == "ctor" and len([a for a in e.get("a", ()) if a.get("k") != "defarg"]) == 1:
            return self.lambda_of(e["a"][0], fr, d + 1)
        if e["k"] == "call" and e.get("q") in ("std::move", "std::forward", "std::ref") and e.get("a"):
            return self.lambda_of(e["a"][0], fr, d + 1)
        if e["k"] == "var" and e.get("id"):
            kind, v, f = self.lookup(e["id"], fr)
            if kind == "env":
                return self.lambda_of(v[0], v[1], d + 1)
            if v and v.get("decl") and "init" in v["decl"]:
                return self.lambda_of(v["decl"]["init"], f, d + 1)
        return None

    IMMEDIATE = re.compile(r"^std::(for_each|remove_if|find_if|find_if_not|any_of|all_of|none_of|count_if|sort|stable_sort|transform|erase_if|call_once|apply|invoke|visit|accumulate|partition|generate|ranges::.*)$")

    OPASSIGN = ("=", "+=", "-=", "++", "--", "|=", "&=")

    def call(self, e, fr, cur):
        if e["k"] == "call" and e.get("op") in self.OPASSIGN and "obj" in e and (e.get("q", "").startswith("std::atomic") or e.get("q", "").startswith("std::__atomic")):
            # atomic assignment
            y = e["a"][0] if e["op"] == "=" and e.get("a") else None
            return self.atomic_assign(e, y, fr, cur)
        if e["k"] == "call" and e.get("q", "").startswith("std::atomic") and e["q"].endswith("::store") and "obj" in e and e.get("a"):
            return self.atomic_assign(e, e["a"][0], fr, cur)
        for c in children(e):
            if isinstance(c, dict):
                cur = self.ev(c, fr, cur)
        if not cur:
            return cur
        k = e["k"]
        # call of a lambda value / std::function bound to a lambda
        le = None
        f = None
        if k == "call":
            if e.get("f") in self.p.fns:
                f = self.p.fns[e["f"]]
                if f.get("lambda"):
                    le = self.lambda_of(e.get("obj"), fr) if "obj" in e else None
            elif e.get("op") == "()" and "obj" in e:
                le = self.lambda_of(e["obj"], fr)
            elif "fe" in e:
                le = self.lambda_of(e["fe"], fr)
            if le is not None and le[0]["f"] in self.p.fns:
                f = self.p.fns[le[0]["f"]]
        tg = self.p.targets(e)
        if f is None and len(tg) == 1 and not self.p.open_virtual(e):
            f = self.p.fns[tg[0]]
        if f is not None and (len(tg) <= 1 or f.get("lambda")) and not (e.get("v") and (len(tg) > 1 or self.p.open_virtual(e))):
            if self.want_inline(f, e, fr):
                # a marker node so that rules can see the call itself even when it is inlined
                n, cur = self.add(cur, "icall", e, fr, e.get("l", 0))
                n.x = f
                ee = e
                if le is not None:
                    ee = e.setdefault("_le%d" % fr.uid, dict(e, _lexframe=le[1]))
                    ee["_lexframe"] = le[1]
                cur = self.inline_call(f, ee, fr, cur)
                if ee is not e and (id(ee), fr.uid) in self._ids:
                    self._ids[(id(e), fr.uid)] = self._ids[(id(ee), fr.uid)]
                    self._canon_cache.pop((id(e), fr.uid), None)
                return cur
        n, cur2 = self.add(cur, "call", e, fr, e.get("l", 0))
        n.x = f
        for t in tg:
            self.opaque.add(t)
        d = self.p.decls.get(e.get("f"), {})
        if d.get("noret") or e.get("q") in ("exit", "_exit", "abort", "std::terminate", "std::exit"):
            n.succ.append((self.abort, None))
            return []
        ty = self.p.call_throws(e)
        if self.opaque_throw:
            ty = self.opaque_throw(n, ty)
        self.throw_edge(n, ty)
        # lambdas run inside a standard algorithm
        if k == "call" and self.IMMEDIATE.match(e.get("q", "")):
            for a in e.get("a", ()):
                la = self.lambda_of(a, fr)
                if la is not None and la[0]["f"] in self.p.fns:
                    lf = self.p.fns[la[0]["f"]]
                    if any(x.fn["id"] == lf["id"] for x in fr.chain()):
                        continue
                    ce = e.setdefault("_lam%d" % fr.uid, {"k": "call", "f": lf["id"], "q": lf["q"], "a": [], "l": e.get("l", 0), "t": lf["ret"]})
                    ce["_lexframe"] = la[1]
                    head, c = self.add(cur2, "nop", None, fr, e.get("l", 0))
                    c = self.inline_call(lf, ce, fr, c)
                    self.connect(c, head)
                    cur2 = [(head, None)]
        return cur2

    # -- statements
    def declare(self, v, fr, cur, l):
        if v.get("static"):
            # initialised once; treat the initialiser as evaluated
            if "init" in v:
                cur = self.ev(v["init"], fr, cur)
            n, cur = self.add(cur, "decl", v, fr, l, None)
            return cur
        if "init" in v and isinstance(v["init"], dict):
            i = v["init"]
            if v["t"] in ("bool", "const bool") and self.complex_bool(i):
                t, f = self.cond(i, fr, cur)
                out = []
                path = self.var_path(v, fr)
                for br, c in ((t, "c:true"), (f, "c:false")):
                    if br:
                        n, o = self.add(br, "decl", v, fr, l, (path, c, c))
                        out += o
                return out
            si = strip(i)
            if si.get("k") == "ctor" and si.get("f") in self.p.fns and v.get("c") and not si.get("copy") and not si.get("move"):
                si.setdefault("_this", ({"k": "var", "n": v["n"], "id": v["id"], "vk": "local", "t": v["t"]}, fr))
                si["_this"] = ({"k": "var", "n": v["n"], "id": v["id"], "vk": "local", "t": v["t"]}, fr)
            ce = self.as_cond(i)
            if ce is not None:
                t, f = self.cond(ce["c"], fr, cur)
                out = []
                for br, y in ((t, ce["x"]), (f, ce["y"])):
                    br = self.ev(y, fr, br) if br else br
                    if br:
                        n, o = self.add(br, "decl", v, fr, l, (self.var_path(v, fr), const_of(y), self.canon(y, fr)))
                        out += o
                cur = out
                if not cur:
                    return cur
                if v.get("d"):
                    self.scope = Scope(self.scope, "var", (v, fr))
                return cur
            cur = self.ev(i, fr, cur)
            if not cur:
                return cur
            n, cur = self.add(cur, "decl", v, fr, l, (self.var_path(v, fr), const_of(i), self.canon(i, fr)))
        else:
            n, cur = self.add(cur, "decl", v, fr, l, (self.var_path(v, fr), None, None))
        if v.get("d"):
            self.scope = Scope(self.scope, "var", (v, fr))
        return cur

    def var_path(self, v, fr):
        return "%s#%d" % (v["n"], fr.uid)

    def st(self, s, fr, cur):
        if not isinstance(s, dict):
            return cur
        k = s["k"]
        if not cur and k not in ("block", "case", "default", "label", "switch", "inl", "seq"):
            return cur
        l = s.get("l", 0)
        if k == "block":
            base = self.scope
            for x in s["s"]:
                cur = self.st(x, fr, cur)
            if cur:
                cur = self.unwind(base, cur)
            self.scope = base
            return cur
        if k == "decl":
            for v in s["v"]:
                cur = self.declare(v, fr, cur, s.get("l", 0))
            return cur
        if k == "seq":
            for x in s["s"]:
                cur = self.st(x, fr, cur)
            return cur
        if k == "inl":      # a dissolved call: "leaveinl" is its return
            base = self.scope
            self.inl.append((base, []))
            for x in s["s"]:
                cur = self.st(x, fr, cur)
            if cur:
                cur = self.unwind(base, cur)
            self.scope = base
            return cur + self.inl.pop()[1]
        if k == "leaveinl":
            base, outs = self.inl[-1]
            outs += self.unwind(base, cur)
            return []
        if k == "expr":
            return self.ev(s["e"], fr, cur)
        if k == "log":
            n, cur = self.add(cur, "log", s, fr, l)
            return cur
        if k == "abort":
            n, _ = self.add(cur, "abort", s, fr, l)
            n.succ.append((self.abort, None))
            return []
        if k == "if":
            base = self.scope
            if "init" in s:
                cur = self.st(s["init"], fr, cur)
            if s.get("cv"):
                cur = self.declare(s["cv"], fr, cur, l)
            t, f = self.cond(s["c"], fr, cur)
            inner = self.scope
            t = self.st(s["t"], fr, t) if t else []
            self.scope = inner
            if "f" in s:
                f = self.st(s["f"], fr, f) if f else []
                self.scope = inner
            cur = t + f
            if inner is not base and cur:
                cur = self.unwind(base, cur)
            self.scope = base
            return cur
        if k == "while":
            base = self.scope
            head, cur = self.add(cur, "loop", s, fr, l)
            if s.get("cv"):
                cur = self.declare(s["cv"], fr, cur, l)
            t, f = self.cond(s["c"], fr, cur)
            inner = self.scope
            L = {"base": inner, "brk": [], "cont": [], "cbase": inner}
            self.loops.append(L)
            t = self.st(s["body"], fr, t) if t else []
            self.scope = inner
            self.loops.pop()
            back = t + L["cont"]
            if inner is not base:
                back = self.unwind(base, back) if back else []
                f = self.unwind(base, f) if f else []
            self.connect(back, head)
            self.scope = base
            return f + L["brk"]
        if k == "do":
            base = self.scope
            head, cur = self.add(cur, "loop", s, fr, l)
            L = {"base": base, "brk": [], "cont": []}
            self.loops.append(L)
            t = self.st(s["body"], fr, cur)
            self.scope = base
            self.loops.pop()
            t = t + L["cont"]
            if t:
                tt, ff = self.cond(s["c"], fr, t)
                self.connect(tt, head)
            else:
                ff = []
            return ff + L["brk"]
        if k == "for":
            base = self.scope
            if "init" in s:
                cur = self.st(s["init"], fr, cur)
            inner = self.scope
            head, cur = self.add(cur, "loop", s, fr, l)
            if "c" in s:
                t, f = self.cond(s["c"], fr, cur)
            else:
                t, f = cur, []
            L = {"base": inner, "brk": [], "cont": []}
            self.loops.append(L)
            t = self.st(s["body"], fr, t) if t else []
            self.scope = inner
            self.loops.pop()
            t = t + L["cont"]
            if t and "inc" in s:
                t = self.ev(s["inc"], fr, t)
            self.connect(t, head)
            out = f + L["brk"]
            if out:
                out = self.unwind(base, out)
            self.scope = base
            return out
        if k == "rangefor":
            base = self.scope
            cur = self.ev(s["range"], fr, cur)
            if not cur:
                return cur
            head, _ = self.add(cur, "rangehead", s, fr, l)
            n, t = self.add([(head, "T")], "decl", s["var"], fr, l, (self.var_path(s["var"], fr), None, self.canon(s["range"], fr) + "[*]"))
            L = {"base": base, "brk": [], "cont": []}
            self.loops.append(L)
            t = self.st(s["body"], fr, t)
            self.scope = base
            self.loops.pop()
            self.connect(t + L["cont"], head)
            return [(head, "F")] + L["brk"]
        if k == "switch":
            base = self.scope
            if s.get("cv"):
                cur = self.declare(s["cv"], fr, cur, l)
            cur = self.ev(s["c"], fr, cur)
            if not cur:
                return cur
            n, _ = self.add(cur, "switch", s, fr, l, self.canon(s["c"], fr))
            inner = self.scope
            L = {"base": inner, "brk": [], "sw": n, "vals": [], "hasdef": False}
            self.loops.append(L)
            t = self.st(s["body"], fr, [])
            self.scope = inner
            self.loops.pop()
            out = t + L["brk"]
            if not L["hasdef"]:
                out.append((n, ("default", tuple(L["vals"]))))
            else:
                # fix the default label now that all values are known
                n.succ = [(m, ("default", tuple(L["vals"])) if lab == "DEF" else lab) for m, lab in n.succ]
            if inner is not base:
                out = self.unwind(base, out)
            self.scope = base
            return out
        if k in ("case", "default"):
            L = next((x for x in reversed(self.loops) if "sw" in x), None)
            if L is None:
                return self.st(s.get("s"), fr, cur)
            if k == "case":
                v = const_of(s["v"]) or "c:%s" % s.get("iv")
                L["vals"].append(v)
                lab = ("case", v)
            else:
                L["hasdef"] = True
                lab = "DEF"
            j, c2 = self.add(cur, "nop", s, fr, l)
            L["sw"].succ.append((j, lab))
            return self.st(s.get("s"), fr, c2)
        if k == "return":
            e = s.get("e")
            cur2 = cur
            if e is not None and fr.fn["ret"] == "bool" and self.complex_bool(e):
                t, f = self.cond(e, fr, cur)
                outs = []
                for br, c in ((t, "c:true"), (f, "c:false")):
                    if br:
                        n, o = self.add(br, "return", s, fr, l, ("ret%d" % fr.uid, c, c))
                        outs += o
                cur2 = outs
            else:
                if e is not None:
                    cur2 = self.ev(e, fr, cur)
                    if not cur2:
                        return []
                n, cur2 = self.add(cur2, "return", s, fr, l, ("ret%d" % fr.uid, const_of(e) if e else None, self.canon(e, fr) if e else None))
            if cur2:
                cur2 = self.unwind(fr.base, cur2)
            fr.ret += cur2
            return []
        if k == "break":
            L = self.loops[-1]
            L["brk"] += self.unwind(L["base"], cur)
            return []
        if k == "continue":
            L = next(x for x in reversed(self.loops) if "cont" in x)
            L["cont"] += self.unwind(L["base"], cur)
            return []
        if k == "try":
            base = self.scope
            entries = [(self.new("catch", h, fr, h.get("l", l)), h) for h in s["h"]]
            self.scope = Scope(base, "try", entries)
            body = self.st(s["body"], fr, cur)
            self.scope = base
            out = body
            for entry, h in entries:
                ty = frozenset([h.get("c") or h.get("t")]) if ("c" in h or "t" in h) else frozenset(["*"])
                self.scope = Scope(base, "catch", ty)
                out = out + self.st(h["body"], fr, [(entry, None)])
                self.scope = base
            return out
        if k == "label":
            j, c2 = self.add(cur, "nop", s, fr, l)
            self.labels.setdefault((fr.uid, s["n"]), [None, []])
            self.labels[(fr.uid, s["n"])][0] = j
            for g in self.labels[(fr.uid, s["n"])][1]:
                self.connect(g, j)
            return self.st(s.get("s"), fr, c2)
        if k == "goto":
            ent = self.labels.setdefault((fr.uid, s["n"]), [None, []])
            if ent[0] is not None:
                self.connect(cur, ent[0])
            else:
                ent[1].append(cur)
            return []
        return cur


# ---------------------------------------------------------------------------------------------------- path exploration
TOK = re.compile(r"[A-Za-z_]\w*#\d+|ret\d+|\.[A-Za-z_]\w*|::[A-Za-z_][\w:]*|this")


def atom_text(a):
    return "|".join(a[1:])


class Explorer:
    """Path-sensitive forward exploration of a graph. A state is (facts, auto): facts are truth values of condition atoms
    and value aliases that are tracked, auto is the rule's own hashable automaton state."""

    def __init__(self, g, rule, cap=400000):
        self.g, self.rule, self.cap = g, rule, cap
        self.reports = []
        self.states = 0
        self.track = getattr(rule, "track", lambda s: False)
        self.only = getattr(rule, "only", None)   # regular expression: forget every other fact
        self._prep()

    def _prep(self):
        # atoms tested from each node on (to drop dead facts)
        g = self.g
        preds = defaultdict(list)
        for n in g.nodes:
            for m, _ in n.succ:
                preds[m.i].append(n)
        self.preds = preds
        atoms = {}
        live = [0] * len(g.nodes)
        names = {}

        def bit(s):
            if s not in atoms:
                atoms[s] = 1 << len(atoms)
            return atoms[s]
        use = [0] * len(g.nodes)
        for n in g.nodes:
            if n.k == "branch":
                for t in TOK.findall(atom_text(n.x[0])):
                    use[n.i] |= bit(t)
            elif n.k == "switch":
                for t in TOK.findall(n.x):
                    use[n.i] |= bit(t)
            elif n.k in ("assign", "decl", "return") and n.x and n.x[2]:
                for t in TOK.findall(n.x[2]):
                    if "#" in t or t.startswith("ret"):
                        use[n.i] |= bit(t)
        todo = deque(n.i for n in g.nodes)
        inq = set(todo)
        while todo:
            i = todo.pop()
            inq.discard(i)
            v = use[i]
            for m, _ in g.nodes[i].succ:
                v |= live[m.i]
            if v != live[i]:
                live[i] = v
                for p in preds[i]:
                    if p.i not in inq:
                        inq.add(p.i)
                        todo.append(p.i)
        self.bits, self.live = atoms, live
        self._tokcache = {}

    def toks(self, s):
        r = self._tokcache.get(s)
        if r is None:
            r = frozenset(TOK.findall(s))
            self._tokcache[s] = r
        return r

    def keep(self, key, node):
        s = key[1] if key[0] == "val" else atom_text(key)
        if self.track(s):
            return True
        if self.only is not None and not self.only.search(s):
            return False
        # local booleans that are tested later
        lv = self.live[node.i]
        for t in self.toks(s):
            if "#" in t or t.startswith("ret"):
                if self.bits.get(t, 0) & lv:
                    return True
        return False

    def interesting(self, key):
        s = atom_text(key) if key[0] != "val" else key[1]
        if self.track(s):
            return True
        if self.only is not None and not self.only.search(s):
            return False
        # plain boolean local / inlined result
        return (key[0] == "t" and re.fullmatch(r"\w+#\d+|ret\d+", key[1]) is not None) or \
               (key[0] == "eq" and re.fullmatch(r"\w+#\d+|ret\d+", key[1]) is not None and key[2].startswith("c:"))

    @staticmethod
    def deref(e):
        """The expression denotes what a pointer points to (the pointer itself does not change)."""
        e = strip(e)
        if not isinstance(e, dict):
            return False
        return e.get("t", "").endswith("*") or (e["k"] == "un" and e["op"] == "*") or (e["k"] == "call" and e.get("op") in ("*", "->"))

    def kill(self, facts, path, through=False):
        """Forget facts that mention an lvalue (through: only what it points to changes)."""
        m = re.search(r"(\.[A-Za-z_]\w*)(\[[^\]]*\])*$", path)
        if m:
            tok = m.group(1)
        else:
            m = re.match(r"([A-Za-z_]\w*#\d+|ret\d+|::[A-Za-z_][\w:]*)", path)
            if not m:
                return facts
            tok = m.group(1)
        out = []
        ch = False
        for k, v in facts:
            s = (k[1] + "|" + str(v)) if k[0] == "val" else atom_text(k)
            if tok in self.toks(s) and not (through and k == ("t", path)):
                ch = True
            else:
                out.append((k, v))
        return frozenset(out) if ch else facts

    def kill_names(self, facts, names):
        """Forget facts that mention one of the fields / globals (qualified names)."""
        toks = set("." + n.split("::")[-1] for n in names) | set("::" + n for n in names)
        out = [(k, v) for k, v in facts if not (toks & self.toks((k[1] + "|" + str(v)) if k[0] == "val" else atom_text(k)))]
        return frozenset(out) if len(out) != len(facts) else facts

    @staticmethod
    def lookup(facts, atom):
        if atom[0] == "eq" and atom[1] == atom[2]:
            return True
        for k, v in facts:
            if k == atom:
                return v
        if atom[0] == "eq" and atom[2].startswith("c:"):
            for k, v in facts:
                if k[0] == "eq" and k[1] == atom[1] and v is True and k[2].startswith("c:") and k[2] != atom[2]:
                    return False
        if atom[0] == "lt":
            a, b = Explorer.number(facts, atom[1]), Explorer.number(facts, atom[2])
            if a is not None and b is not None:
                return a < b
        return None

    ENUMS = {}

    @staticmethod
    def number(facts, s):
        """The integer an expression is known to equal, if any (enumerators by value)."""
        if not s.startswith("c:"):
            for k, v in facts:
                if k[0] == "eq" and k[1] == s and v is True and k[2].startswith("c:"):
                    s = k[2]
                    break
            else:
                return None
        t = s[2:]
        try:
            return int(t)
        except ValueError:
            return Explorer.ENUMS.get(t)

    def assume(self, facts, atom, val):
        """Facts with atom=val added, or None when contradictory."""
        cur = self.lookup(facts, atom)
        if cur is not None:
            if cur != val:
                return None
            return facts
        new = set(facts)
        if self.interesting(atom):
            new.add((atom, val))
        # through a recorded value
        if len(atom) >= 2:
            for k, v in facts:
                if k[0] == "val":
                    if atom[1] == k[1] or (len(atom) > 2 and atom[2] == k[1]):
                        a2 = (atom[0],) + tuple(v if x == k[1] else x for x in atom[1:])
                        if a2[0] == "eq" and a2[2] < a2[1] and not a2[2].startswith("c:"):
                            a2 = ("eq", a2[2], a2[1])
                        c2 = self.lookup(facts, a2)
                        if c2 is not None and c2 != val:
                            return None
                        if self.interesting(a2):
                            new.add((a2, val))
        return frozenset(new)

    def set_value(self, facts, x):
        path, const, canon = x
        src = facts
        facts = self.kill(facts, path)
        new = set(facts)
        if const in ("c:true", "c:false"):
            a = ("t", path)
            if self.interesting(a):
                new.add((a, const == "c:true"))
        elif const == "c:null":
            a = ("t", path)
            if self.interesting(a):
                new.add((a, False))
        elif const == 'c:""':
            a = ("eq", path + ".size()", "c:0")
            if self.interesting(a):
                new.add((a, True))
        elif const is not None:
            a = ("eq", path, const)
            if self.interesting(a):
                new.add((a, True))
        elif canon:
            # copy what is known about the source
            for k, v in src:
                if k[0] in ("t", "eq") and k[1] == canon:
                    a = (k[0], path) + tuple(k[2:])
                    if self.interesting(a) and path not in canon:
                        new.add((a, v))
                if k[0] == "val" and k[1] == canon and self.track(v):
                    new.add((("val", path), v))
            if self.track(canon) and path not in canon:
                new.add((("val", path), canon))
        return frozenset(new)

    def transfer(self, n, facts):
        """Facts after executing node n (before choosing an edge)."""
        k = n.k
        if k == "decl" and isinstance(n.e, dict):
            for b in n.e.get("binds") or ():        # each pass binds them anew
                facts = self.kill(facts, "%s#%d" % (b["n"], n.fr.uid))
        if k in ("assign", "decl", "return"):
            if n.x:
                if n.k == "assign" and n.x[1] is None and n.x[2] is None:
                    return self.kill(facts, n.x[0])
                return self.set_value(facts, n.x)
        elif k == "leave":
            return facts
        elif k == "call" and facts:
            e = n.e
            site = "@%d.%d(" % (e.get("l", 0), self.g.siteno(e))
            if any(site in (atom_text(kk) if kk[0] != "val" else str(v)) for kk, v in facts):
                facts = frozenset((kk, v) for kk, v in facts if site not in (atom_text(kk) if kk[0] != "val" else str(v)))
            names = set()
            for t in self.g.p.targets(e):
                names |= self.g.p.mod(t)
            if names:
                facts = self.kill_names(facts, names)
            d = self.g.p.decls.get(e.get("f"), {})
            if "obj" in e and not d.get("const") and not d.get("repo") and not Prog.NONMUT.search(e.get("q", "")) and e.get("op") not in ("[]", "->", "*", "bool", "()"):
                facts = self.kill(facts, self.g.canon(e["obj"], n.fr), self.deref(e["obj"]))
                if e.get("op") == "=" and e.get("a"):
                    facts = self.set_value(facts, (self.g.canon(e["obj"], n.fr), const_of(e["a"][0]), self.g.canon(e["a"][0], n.fr)))
            pt = d.get("pt", ())
            for a, ty in zip(e.get("a", ()), pt):
                if ty.endswith("&") and not ty.endswith("&&") and not ty.startswith("const "):
                    facts = self.kill(facts, self.g.canon(a, n.fr))
                elif ty.endswith("*") and not ty.startswith("const ") and strip(a).get("k") == "un" and strip(a)["op"] == "&":
                    facts = self.kill(facts, self.g.canon(a, n.fr))
        elif k == "loop" or k == "rangehead":
            pass
        return facts

    def run(self, facts=frozenset(), starts=None):
        g, rule = self.g, self.rule
        init = rule.init() if hasattr(rule, "init") else None
        begin = [(s.i, frozenset(facts), init) for s in (starts or [g.entry])]
        seen = {s: None for s in begin}
        todo = deque(begin)
        while todo:
            st = todo.popleft()
            i, facts, auto = st
            n = g.nodes[i]
            self.cur = st
            self.seen = seen
            r = rule.node(n, auto, facts, self)
            autos = r if isinstance(r, (list, tuple)) and not hasattr(r, "_fields") and isinstance(r, list) else [r]
            f2 = self.transfer(n, facts)
            for a2 in autos:
                if a2 is STOP:
                    continue
                for m, lab in n.succ:
                    f3 = f2
                    a3 = a2
                    if lab in ("T", "F") and n.k == "branch":
                        atom, pol = n.x
                        f3 = self.assume(f2, atom, pol == (lab == "T"))
                        if f3 is None:
                            continue
                    elif isinstance(lab, tuple) and n.k == "switch":
                        if lab[0] == "case":
                            f3 = self.assume(f2, ("eq", n.x, lab[1]), True)
                        else:
                            for v in lab[1]:
                                f3 = self.assume(f3, ("eq", n.x, v), False)
                                if f3 is None:
                                    break
                        if f3 is None:
                            continue
                    if hasattr(rule, "edge"):
                        a3 = rule.edge(n, lab, m, a2, f3, self)
                        if a3 is STOP:
                            continue
                    if f3:
                        f3 = frozenset(x for x in f3 if self.keep(x[0], m))
                    s2 = (m.i, f3, a3)
                    if s2 not in seen:
                        seen[s2] = st
                        todo.append(s2)
                        if len(seen) > self.cap:
                            raise Broken("state cap exceeded in %s" % g.root_fn["q"])
        self.states = len(seen)
        return self

    def trace(self, st=None, n=12):
        st = st or self.cur
        out = []
        while st is not None:
            out.append(st[0])
            st = self.seen[st]
        out.reverse()
        res, last = [], None
        for i in out:
            nd = self.g.nodes[i]
            if nd.k in ("branch", "call", "catch", "return", "throw", "enter", "switch", "assign"):
                w = nd.where()
                if nd.k == "branch":
                    w += "?"
                elif nd.k in ("call", "enter"):
                    w += " " + nd.q.split("::")[-1]
                elif nd.k in ("catch", "throw", "return"):
                    w += " " + nd.k
                if w != last:
                    res.append(w)
                    last = w
        if len(res) > n:
            res = res[:2] + ["..."] + res[-(n - 2):]
        return res


class _Stop:
    pass


STOP = _Stop()


def known(facts, atom):
    return Explorer.lookup(facts, atom)
