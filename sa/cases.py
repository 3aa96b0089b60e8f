"""Case analysis of code that loops over a list of elements and then decides: every element belongs to one of finitely many classes (a valuation of
its boolean / enumerated fields); one iteration of the loop body is summarised per class (which counters it bumps, which pointers it selects, whether it
leaves the loop); a population (how many elements of each class) then determines counters and pointers after the loop, and the decisions that follow are
explored with those values. Nothing is executed: the summaries are path sets of the control-flow graph, conditions are decided from facts or from the
abstract environment, and undecided conditions go both ways."""
import itertools
from .lib import *

SMALL = 64


def env_get(toks, path):
    for t in toks:
        if t[0] == "env" and t[1] == path:
            return t[2]
    return None


def env_set(toks, path, v):
    toks = frozenset(t for t in toks if not (t[0] == "env" and t[1] == path))
    if v is None or isinstance(v, int) and abs(v) > 1 << 70:
        return toks
    return toks | {("env", path, v)}


def value(e, fr, g, toks, leaf=None, d=0):
    """Integer value of an expression under the abstract environment, or None."""
    while isinstance(e, dict) and e.get("k") in ("cast", "defarg") and isinstance(e.get("e"), dict):
        if e.get("ck") == "CXXDynamicCastExpr":     # may be null where the pointer is not
            return leaf(e, fr, g) if leaf else None
        e = e["e"]
    if not isinstance(e, dict) or d > 30:
        return None
    k = e["k"]
    if k in ("int", "char"):
        try:
            return int(e["v"])
        except (ValueError, TypeError):
            return None
    if k == "bool":
        return 1 if str(e["v"]).lower() in ("1", "true") else 0
    if k == "enum":
        return Explorer.ENUMS.get(e["q"])
    if k == "null":
        return 0
    if leaf:
        v = leaf(e, fr, g)
        if v is not None:
            return v
    if k in ("var", "mem", "idx", "this") or k == "call" or (k == "un" and e["op"] == "*"):
        v = env_get(toks, g.canon(e, fr))
        if v is not None:
            return v
    if k == "bin":
        op = e["op"]
        if op in ("=",) or op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            return None
        a = value(e["x"], fr, g, toks, leaf, d + 1)
        b = value(e["y"], fr, g, toks, leaf, d + 1)
        if op == "&&":
            return 0 if a == 0 or b == 0 else (1 if a is not None and b is not None else None)
        if op == "||":
            return 1 if a or b else (0 if a is not None and b is not None else None)
        if a is None or b is None:
            return None
        try:
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: int(a / b), "%": lambda: a % b, "<": lambda: int(a < b), ">": lambda: int(a > b),
                 "<=": lambda: int(a <= b), ">=": lambda: int(a >= b), "==": lambda: int(a == b), "!=": lambda: int(a != b), "<<": lambda: a << b, "|": lambda: a | b, "&": lambda: a & b, "^": lambda: a ^ b, ">>": lambda: a >> b}[op]()
        except (KeyError, ZeroDivisionError):
            return None
        if r < 0 and re.match(r"(const )?(unsigned|size_t|uint)", e.get("t", "")):
            r %= 1 << 64
        return r
    if k == "un":
        v = value(e["e"], fr, g, toks, leaf, d + 1)
        if v is None:
            return None
        return {"-": -v, "!": int(not v), "+": v}.get(e["op"])
    if k == "cond":
        c = value(e["c"], fr, g, toks, leaf, d + 1)
        return None if c is None else value(e["x"] if c else e["y"], fr, g, toks, leaf, d + 1)
    if k == "call":
        q = e.get("q", "")
        if q in ("std::max", "std::min") and len(e.get("a", ())) == 2:
            vs = [value(a, fr, g, toks, leaf, d + 1) for a in e["a"]]
            return None if None in vs else (max if q == "std::max" else min)(vs)
        if q.startswith("std::") and "obj" in e and not [a for a in e.get("a", ()) if a.get("k") != "defarg"] and (q.endswith("::load") or "::operator " in q):
            return value(e["obj"], fr, g, toks, leaf, d + 1)
        if "obj" in e and q.split("::")[-1] == "empty":
            n = env_get(toks, g.canon(e["obj"], fr) + ".size()")
            return None if n is None else int(n == 0)
    o, f = origin(e, fr, g)
    if o is not e and isinstance(o, dict):
        return value(o, f, g, toks, leaf, d + 1)
    if k == "ctor" and len(e.get("a", ())) == 1:
        return value(e["a"][0], fr, g, toks, leaf, d + 1)
    return None


def is_string(t):
    return re.match(r"(const )?(std::)?(__cxx11::)?(string\b|basic_string<char\b)", t) is not None


def length(e):
    """0 for the empty string, 1 for one that is certainly not empty, None when unknown."""
    e = strip(e)
    if not isinstance(e, dict) or e.get("k") in ("ctor", "init") and not [a for a in e.get("a", ()) if a.get("k") != "defarg"]:
        return 0
    if e["k"] == "str":
        return 1 if e["v"] else 0
    if e["k"] == "ctor" and e.get("a"):
        return length(e["a"][0])
    if e["k"] == "call" and e.get("op") == "+":
        ls = [length(a) for a in ([e["obj"]] if "obj" in e else []) + e.get("a", [])]
        return 1 if 1 in ls else 0 if all(l == 0 for l in ls) else None
    return None


def step_env(n, toks, g, leaf):
    """Environment after an assignment, declaration or increment; copying an element (pointer) copies what is known of its fields."""
    built = n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and strip(n.e["init"]).get("k") == "ctor" and not (strip(n.e["init"]).get("copy") or strip(n.e["init"]).get("move"))
    if n.k in ("decl", "assign") and n.x and not built:     # a constructor's own assignments come before the declaration
        path, src = n.x[0], n.x[2]
        mine = [t for t in toks if t[0] == "env" and t[1].startswith(path + ".")]
        theirs = [("env", path + t[1][len(src):], t[2]) for t in toks if t[0] == "env" and src and t[1].startswith(src + ".")]
        if mine or theirs:
            toks = frozenset(t for t in toks if t not in mine) | frozenset(theirs)
    e = n.e
    if n.k == "return" and n.x and isinstance(e, dict) and "e" in e:
        c = n.x[1]
        v = {"c:true": 1, "c:false": 0}.get(c) if c else None
        return env_set(toks, n.x[0], value(e["e"], n.fr, g, toks, leaf) if v is None else v)
    if n.k == "decl" and isinstance(e, dict):
        p = g.var_path(e, n.fr)
        for b in e.get("binds") or ():
            c = "%s#%d" % (b["n"], n.fr.uid)
            toks = frozenset(t for t in toks if not (t[0] == "env" and (t[1] == c or t[1].startswith(c + "."))))
        i = e.get("init")
        v = value(i, n.fr, g, toks, leaf) if isinstance(i, dict) else None
        if is_string(e.get("t", "")):
            return env_set(toks, p + ".size()", length(i))
        if re.search(r"(vector|list|set|map|deque)<", e.get("t", "")) and (not isinstance(i, dict) or not [a for a in strip(i).get("a", ()) if a.get("k") != "defarg"]):
            return env_set(toks, p + ".size()", 0)
        return env_set(toks, p, v)
    if n.k in ("assign", "call", "icall") and isinstance(e, dict):
        if e.get("k") == "un" and e["op"] in ("++", "--"):
            p = g.canon(e["e"], n.fr)
            v = env_get(toks, p)
            return env_set(toks, p, None if v is None else v + (1 if e["op"] == "++" else -1))
        op, t, y = None, None, None
        if e.get("k") == "bin" and is_assign(e):
            op, t, y = e["op"], e["x"], e["y"]
        elif e.get("k") == "call" and e.get("op") in ("=", "+=", "-=", "++", "--") and "obj" in e:
            op, t, y = e["op"], e["obj"], (e["a"][0] if e.get("a") else None)
        elif e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] in ("push_back", "emplace_back", "push", "push_front"):
            p = g.canon(e["obj"], n.fr) + ".size()"
            v = env_get(toks, p)
            return env_set(toks, p, None if v is None else v + 1)
        elif e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] == "store" and e.get("a"):
            op, t, y = "=", e["obj"], e["a"][0]
        if op:
            p = g.canon(t, n.fr)
            if is_string(strip(t).get("t", "")):
                return env_set(toks, p + ".size()", length(y) if op == "=" else 1 if op == "+=" and length(y) else None)
            if op in ("++", "--"):
                v = env_get(toks, p)
                return env_set(toks, p, None if v is None else v + (1 if op == "++" else -1))
            v = value(y, n.fr, g, toks, leaf) if y is not None else None
            if op in ("+=", "-="):
                o = env_get(toks, p)
                v = None if o is None or v is None else (o + v if op == "+=" else o - v)
            elif op != "=":
                v = None
            return env_set(toks, p, v)
    return toks


class Loop:
    """A loop over the list, found at a graph node."""

    def __init__(self, g, head, body, after, var):
        self.g, self.head, self.body, self.after, self.var = g, head, body, after, var


class Cases:
    """leaf(e, fr, g): scenario values of expressions; events(n, toks, facts, x): toks, STOP or ("end", kind, toks)."""

    def __init__(self, ctx, g, list_field, leaf=None, events=None, track=None, edges=None, only=None):
        self.only = only        # facts worth keeping (None: those of all plain locals)
        self.edges = edges      # edges(n, label, m, toks): tokens after the edge (before the conditions are looked at)
        self.ctx, self.g, self.list_field = ctx, g, list_field
        self.leaf0, self.events = leaf, events
        self.track = re.compile(track) if track else None
        self.size = None
        self.now = frozenset()     # the tokens where a leaf is being evaluated
        self.loops = {}
        self.undecided = {}
        self.memo = {}
        for n in g.nodes:
            if n.k == "rangehead" and self.over(n.e.get("range"), n.fr):
                body = [m for m, lab in n.succ if lab == "T"]
                after = [m for m, lab in n.succ if lab == "F"]
                v = n.e.get("var")
                self.loops[n.i] = Loop(g, n, body, after, g.var_path(v, body[0].fr if body else n.fr) if v else None)

    def over(self, e, fr):
        if callable(self.list_field):
            return isinstance(e, dict) and bool(self.list_field(e, fr, self.g))
        return isinstance(e, dict) and origin_field(e, fr, self.g) == self.list_field

    def leaf(self, e, fr, g):
        if e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] in ("size", "empty") and self.size is not None and self.over(e["obj"], fr):
            return self.size if e["q"].endswith("size") else int(self.size == 0)
        return self.leaf0(e, fr, g) if self.leaf0 else None

    def run(self, starts, facts, toks, stops={}, without=None, cap=60000):
        """Explore from `starts` until a list loop, a stop node or an end; [(kind, node, tokens, facts)]."""
        g, out = self.g, []

        def ev(n, a, facts, x):
            if n.i in stops:
                out.append((stops[n.i], n, a, facts))
                return STOP
            if n.i in self.loops and n.i != without:
                out.append(("loop", n, a, facts))
                return STOP
            for end, kind in ((g.exit, "exit"), (g.excexit, "throw"), (g.abort, "abort")):
                if n is end:
                    out.append((kind, n, a, facts))
                    return STOP
            self.now = a
            a = step_env(n, a, g, self.leaf)
            self.now = a
            if self.events:
                a = self.events(n, a, facts, x)
                if isinstance(a, tuple) and a and a[0] == "end":
                    out.append((a[1], n, a[2], facts))
                    return STOP
            return a

        def eg(n, lab, m, a, facts, x):
            self.now = a
            if self.edges:
                a = self.edges(n, lab, m, a)
                if a is STOP:
                    return STOP
            if n.k == "branch" and lab in ("T", "F"):
                v = value(n.e, n.fr, g, a, self.leaf)
                if v is None:
                    self.undecided[n.i] = n
                elif bool(v) != (lab == "T"):
                    return STOP
            elif n.k == "switch" and isinstance(lab, tuple):
                v = value(n.e.get("c"), n.fr, g, a, self.leaf)
                if v is not None:
                    num = lambda t: int(t[2:]) if re.fullmatch(r"c:-?\d+", t) else Explorer.ENUMS.get(t[2:])
                    if lab[0] == "case" and num(lab[1]) not in (None, v):
                        return STOP
                    if lab[0] != "case" and v in [num(t) for t in lab[1]]:
                        return STOP
            return a
        tr = self.track
        x = Explorer(g, Flow(ev, (lambda s: tr.search(s) is not None) if tr else None, toks, eg, self.only), cap)
        x.run(facts, list(starts))
        self.ctx.states += x.states
        return list(dict.fromkeys(out))

    def iterate(self, L, facts, toks, elem):
        """One iteration for an element {field: value}: [(kind, node, tokens, facts)], kind next | break | an end."""
        P = L.var
        t0 = frozenset(t for t in toks if not (t[0] == "env" and (t[1] == P or t[1].startswith(P + "."))))
        f0 = frozenset((k, v) for k, v in facts if P not in (atom_text(k) if k[0] != "val" else k[1] + str(v)))
        key = (L.head.i, f0, t0, elem, self.size)
        if key not in self.memo:
            t1 = t0 | {("env", P if k == "" else P + "." + k, v) for k, v in elem}
            d = L.body[0]
            stops = {a.i: "break" for a in L.after}
            stops[L.head.i] = "next"
            r = self.run([m for m, _ in d.succ] if d.k == "decl" else [d], f0, t1, stops, L.head.i)
            clean = []
            for kind, n, t, f in r:
                if kind in ("next", "break"):
                    t = frozenset(x for x in t if not (x[0] == "env" and (x[1] == P or x[1].startswith(P + "."))))
                    f = frozenset((k, v) for k, v in f if P not in (atom_text(k) if k[0] != "val" else k[1] + str(v)))
                clean.append((kind, n, t, f))
            self.memo[key] = list(dict.fromkeys(clean))
        return self.memo[key]

    def population(self, elems, starts, facts=frozenset(), toks=frozenset(), depth=0):
        """All ends (kind, node, tokens, facts) of running from `starts` when the list holds exactly `elems` (in this order)."""
        if depth > 6:
            raise Broken("too many loops in a row in %s" % self.g.root_fn["q"])
        self.size = len(elems)
        key = ("run", tuple(s.i for s in starts), facts, toks, self.size)
        if key not in self.memo:
            self.memo[key] = self.run(starts, facts, toks)
        out = []
        for kind, n, t, f in self.memo[key]:
            if kind != "loop":
                out.append((kind, n, t, f))
                continue
            L = self.loops[n.i]
            done, live = [], [(t, f)]
            for el in elems:
                nxt = []
                for t1, f1 in live:
                    for k2, n2, t2, f2 in self.iterate(L, f1, t1, el):
                        if k2 == "next":
                            nxt.append((t2, f2))
                        elif k2 == "break":
                            done.append((t2, f2))
                        elif k2 == "loop":
                            raise Broken("nested loop over the list in %s" % self.g.root_fn["q"])
                        else:
                            out.append((k2, n2, t2, f2))
                live = list(dict.fromkeys(nxt))
            for t1, f1 in dict.fromkeys(done + live):
                out += self.population(elems, L.after, f1, t1, depth + 1)
        return list(dict.fromkeys(out))


def elements(dims):
    """All valuations of {field: [values]} as sorted tuples; field '' is the element's own identity (non-null)."""
    ks = sorted(dims)
    for vs in itertools.product(*(dims[k] for k in ks)):
        yield tuple(zip(ks, vs))
