"""The pool of database handles: a handle is used by one owner at a time and always comes back."""
from . import prop
from ..lib import *
from ..absint import *
from .. import linked
from ..norm import nodes
from .jobs import Obj
import itertools

SP, SH = "SQLitePool::", "SQLiteScopedHandle::"


class PoolWorld(linked.HeapWorld):
    def __init__(self, waits):
        linked.HeapWorld.__init__(self, (SP, SH))
        self.waits = waits
        self.log = []
        self.pool = None

    def call(self, I, e, q, fr):
        if q.startswith("std::condition_variable") and q.endswith(("::wait", "::wait_for", "::wait_until")):
            a = [x for x in e["a"] if x.get("k") != "defarg"]
            pred = I.ev(a[-1], fr) if len(a) > (1 if q.endswith("::wait") else 2) else None
            for _ in range(4):
                if isinstance(pred, Lam) and I.apply(pred):
                    return Cell(1)
                A, U, k, M = self.pool.state()
                if A or k < M - 1:
                    raise linked.Bad("it waits although %s" % ("a handle is free" if A else "there may be more handles"))
                self.log.append("wait")
                if self.waits is None:
                    raise Flow("return", Cell("waits"))
                # the owner of a handle returns it
                self.pool.give(self.waits)
                if pred is None:
                    return Cell(0)
            raise linked.Bad("it waits although a handle is free")
        if q.startswith("std::condition_variable") and "::notify_" in q:
            self.log.append(("notify",) + self.pool.state()[:2])
            return Cell(0)
        if q == SP + "returnToPool":
            self.log.append(("returned", I.ev(e["a"][0], fr)))
        return linked.HeapWorld.call(self, I, e, q, fr)


class Pool:
    def __init__(self, k, used, M, made):
        self.A = linked.Tree([(i, None) for i in range(k) if i not in used], True)
        self.U = linked.Tree([(i, None) for i in used], True)
        self.objs = linked.Linked([linked.Heap("SQLite") if i in made else 0 for i in range(M)])
        self.base = linked.Heap("base")
        self.M = M
        self.cell = Cell(Obj({"_sync": Cell(Term("mutex")), "_wait": Cell(Term("cv")), "_maxDBs": Cell(M), "_baseDB": Cell(self.base), "_availableHandles": Cell(self.A), "_inUseHandles": Cell(self.U), "_objects": Cell(self.objs)}))

    def state(self):
        A, U = [sorted(n.k for n in t.nodes) for t in (self.A, self.U)]
        return A, U, len(set(A) | set(U)), self.M

    def give(self, i):
        n = self.U.find(i)
        self.U.nodes.remove(n)
        self.A.put(i, None)

    def wrong(self, want_a, want_u):
        A, U, _, _ = self.state()
        if A != sorted(want_a) or U != sorted(want_u):
            return "leaves %s free and %s in use, not %s and %s" % (A, U, sorted(want_a), sorted(want_u))
        return None


def states():
    for M in (2, 3, 4):
        for k in range(M):
            for n in range(k + 1):
                for used in itertools.combinations(range(k), n):
                    for made in {tuple(range(k)), tuple(i for i in range(k) if i not in used[-1:])}:
                        yield M, k, used, made


def model(ctx):
    p = ctx.p
    notes = []

    def case(rule, fn, what, mk, run, waits=None):
        def go(I):
            w = I.hook
            w.pool = mk()
            try:
                return run(I, w, w.pool)
            except linked.Bad as b:
                return str(b)
        for I, w, r in paths(p, lambda: PoolWorld(waits), go, 300, notes):
            ctx.states += I.steps
            ctx.fns.update(I.functions)
            if r[0] == "give":
                notes.append("%s: %s (line %d)" % (fn, r[1], I.line))
                continue
            msg = "throws %s" % r[1].typ if r[0] == "throw" else r[1]
            if msg:
                f = p.fn(fn)
                ctx.bad(rule, fn, re.sub(r"\[.*|\d", "", msg), "%s:%s" % (f["file"], f["l"]), "%s (%s): %s" % (fn, what, msg))
        ctx.ok(rule, "%s: %s" % (fn, what))
    one = "a handle that is given out was free and is in use from then on"
    back = "a handle that is returned is free again"
    for M, k, used, made in states():
        desc = "%d of %d handles in use, %d exist" % (len(used), M - 1, len(made))
        mk = lambda: Pool(k, used, M, made)
        free = [i for i in range(k) if i not in used]
        for create in (1, 0):
            def get(I, w, P):
                r = I.call_fn(p.fn(SP + "getIndex"), [Cell(create)], P.cell).v
                if r == "waits":
                    return None
                if not isinstance(r, int):
                    raise Give("which handle it gives")
                came = [w.waits] if w.waits is not None and "wait" in w.log else []
                if r not in free + came and (r < k or r >= M - 1 or free):
                    return "gives out handle %d, which %s" % (r, "is in use" if r in used else "does not exist")
                msg = P.wrong([i for i in free + came if i != r], [i for i in list(used) if i not in came] + [r])
                if not msg and create and not isinstance(P.objs.nodes[r].c.v, linked.Heap) and r not in free + came:
                    msg = "gives out a handle that was not made"
                return msg
            case(one, SP + "getIndex", desc + (", not made at once" if not create else ""), mk, get)
            if len(used) == M - 1:
                for i in used:
                    case(one, SP + "getIndex", desc + ", %d comes back" % i, mk, get, i)
        for i in range(k):
            def init(I, w, P):
                old = P.objs.nodes[i].c.v
                others = [n.c.v for j, n in enumerate(P.objs.nodes) if j != i]
                r = I.call_fn(p.fn(SP + "initializeIndex"), [Cell(i)], P.cell).v
                now = P.objs.nodes[i].c.v
                if not isinstance(now, linked.Heap) or r is not now:
                    return "does not give the handle of the index"
                if isinstance(old, linked.Heap) and now is not old:
                    return "replaces a handle that exists"
                if any(x is not y for x, y in zip(others, [n.c.v for j, n in enumerate(P.objs.nodes) if j != i])):
                    return "changes another handle"
                return P.wrong(free, used)
            case(one, SP + "initializeIndex", desc + ", index %d" % i, mk, init)
        for i in used:
            rest = [x for x in used if x != i]

            def ret(I, w, P):
                I.call_fn(p.fn(SP + "returnToPool"), [Cell(i)], P.cell)
                n = [x for x in w.log if x[0] == "notify"]
                if not n:
                    return "nobody who waits is told"
                if i not in n[-1][1]:
                    return "those who wait are told before the handle is free"
                return P.wrong(free + [i], rest)
            case(back, SP + "returnToPool", desc + ", %d" % i, mk, ret)
            for ops in (("~",), ("release", "~"), ("release", "release", "~"), ("db", "~"), ("db", "release", "~")):
                def scoped(I, w, P):
                    ctor = next(f for f in p.fns.values() if f["q"] == SH + "SQLiteScopedHandle" and len(f["p"]) == 2)
                    d = {}
                    this = Cell(Obj(d))
                    fr = Frame(ctor, None, this)
                    for prm, c in zip(ctor["p"], (P.cell, Cell(i))):
                        fr.vars[prm["id"]] = c
                    for x in ctor.get("inits") or ():
                        d[x["m"]] = I.lv(x["e"], fr) if x["m"] == "_pool" else Cell(I.ev(x["e"], fr))
                    I.st(ctor["body"], fr)
                    for o in ops:
                        r = I.call_fn(p.fn(SH + ("~SQLiteScopedHandle" if o == "~" else o)), [], this)
                        if o == "db" and r.v is not P.objs.nodes[i].c.v:
                            return "db() is not the handle of the index"
                    n = [x for x in w.log if x[0] == "returned"]
                    if n != [("returned", i)]:
                        return "after %s the handle was returned %d times" % ("/".join(ops), len(n))
                    return P.wrong(free + [i], rest)
                case(back, SH + "~SQLiteScopedHandle", desc + ", %d, %s" % (i, "/".join(ops)), mk, scoped)

        def end(I, w, P):
            hs = [n.c.v for n in P.objs.nodes if isinstance(n.c.v, linked.Heap)]
            I.call_fn(p.fn(SP + "~SQLitePool"), [], P.cell)
            if any(not h.freed for h in hs):
                return "a handle is never closed"
            return None
        case("every handle is closed once", SP + "~SQLitePool", desc, mk, end)
    for r in (one, back):
        ctx.need(r, 0 if notes else 20)
    return notes


def users(ctx):
    """Where handles are taken: each goes into a scoped handle of the same pool, which is not copied, and is not used after its release."""
    p = ctx.p
    rule, rule2 = "every handle that is taken is owned by one scope", "a handle is not used after its release"
    owned = set()
    for f in p.fns.values():
        if f["q"].startswith((SP, SH)):
            continue
        for e in nodes(f["body"]):
            if e.get("k") == "ctor" and e.get("c") == "SQLiteScopedHandle":
                a = e.get("a") or []
                if len(a) != 2:
                    ctx.bad(rule, f["q"], "copied", "%s:%s" % (f["file"], e.get("l")), "the owner of a database handle is copied: the handle is returned twice")
                    continue
                for x in nodes(a[1]):
                    if x.get("k") == "call" and x.get("q") == SP + "getIndex":
                        owned.add(id(x))
                        if same(strip(a[0]), strip(x["obj"])) is False:
                            ctx.bad(rule, f["q"], "pool", "%s:%s" % (f["file"], e.get("l")), "the handle is taken from one pool and returned to another")
    for f in p.fns.values():
        if f["q"].startswith((SP, SH)):
            continue
        for e in nodes(f["body"]):
            if e.get("k") == "call" and e.get("q") == SP + "getIndex":
                ctx.ok(rule, "%s: getIndex" % f["q"])
                ctx.fns.add(f["q"])
                if id(e) not in owned and not kept(f, e):
                    ctx.bad(rule, f["q"], "lost", "%s:%s" % (f["file"], e.get("l")), "a database handle is taken and not given to a scope that returns it")
    ctx.need(rule, 4)
    for f in p.fns.values():
        if f["q"].startswith((SP, SH)):
            continue
        rel = [e for e in nodes(f["body"]) if e.get("k") == "call" and e.get("q") == SH + "release"]
        if not rel:
            continue
        after(ctx, f, rule2)


def target(e):
    """The variable a pool expression denotes, or None."""
    e = strip(e)
    while e.get("k") == "un" and e.get("op") in ("*", "&") or e.get("k") == "call" and e.get("op") in ("*", "->") and isinstance(e.get("obj"), dict) or e.get("k") == "call" and e.get("q", "").endswith("::get"):
        e = strip(e.get("e") or e["obj"])
    return e.get("id") if e.get("k") == "var" else e.get("q") if e.get("k") == "mem" else None


def same(a, b):
    x, y = target(a), target(b)
    return None if x is None or y is None else x == y


def kept(f, e):
    """The index is put into a variable first, which a scoped handle is made of."""
    for d in nodes(f["body"]):
        if d.get("k") == "return" and isinstance(d.get("e"), dict) and any(x is e for x in nodes(d["e"])):
            return True         # its caller has it now
        if d.get("k") == "decl":
            for v in d["v"]:
                if isinstance(v.get("init"), dict) and any(x is e for x in nodes(v["init"])):
                    return any(x.get("k") == "ctor" and x.get("c") == "SQLiteScopedHandle" and len(x.get("a") or ()) == 2 and strip(x["a"][1]).get("id") == v["id"] for x in nodes(f["body"]))
    return False


def after(ctx, f, rule):
    p = ctx.p
    scopes, refs = {}, {}
    for d in nodes(f["body"]):
        if d.get("k") == "decl":
            for v in d["v"]:
                if v.get("c") == "SQLiteScopedHandle":
                    scopes[v["id"]] = v
                elif isinstance(v.get("init"), dict) and v.get("t", "").strip().endswith(("&", "*")):
                    for x in nodes(v["init"]):
                        if x.get("k") == "call" and x.get("q") == SH + "db" and strip(x["obj"]).get("k") == "var":
                            refs[v["id"]] = strip(x["obj"])["id"]
    changed = True
    while changed:          # what is made of the handle uses it too
        changed = False
        for d in nodes(f["body"]):
            if d.get("k") == "decl":
                for v in d["v"]:
                    if v["id"] not in refs and isinstance(v.get("init"), dict) and (v.get("c") or v.get("t", "").strip().endswith(("&", "*"))) and v.get("c") not in ("SQLiteScopedHandle",):
                        x = strip(v["init"])
                        a = x.get("a") or [] if x.get("k") == "ctor" else [x]
                        for y in a:
                            y = strip(y)
                            if y.get("k") == "un" and y.get("op") == "&":
                                y = strip(y["e"])
                            if y.get("k") == "var" and y.get("id") in refs:
                                refs[v["id"]] = refs[y["id"]]
                                changed = True
    g = ctx.graph(f)
    for n in g.nodes:
        if not (isinstance(n.e, dict) and n.e.get("k") == "call" and n.e.get("q") == SH + "release" and strip(n.e["obj"]).get("k") == "var"):
            continue
        scope = strip(n.e["obj"])["id"]
        ctx.ok(rule, "%s: release at line %s" % (f["q"], n.l))
        seen, todo = {n.i}, [m for m, _ in n.succ]
        while todo:
            m = todo.pop()
            if m.i in seen:
                continue
            seen.add(m.i)
            ctx.states += 1
            if m.k == "decl" and m.e.get("id") == scope:
                continue
            if isinstance(m.e, dict) and m.k not in ("dtor", "end"):
                for y in nodes(m.e):
                    if y.get("k") == "var" and refs.get(y.get("id")) == scope or y.get("k") == "call" and y.get("q") == SH + "db" and strip(y["obj"]).get("id") == scope:
                        ctx.bad(rule, f["q"], "use after release", "%s:%s" % (f["file"], m.l), "a database handle that was returned to the pool at line %s is used" % n.l)
            todo += [t for t, _ in m.succ]


@prop("C42")
def c42(ctx):
    for x in list(dict.fromkeys(model(ctx)))[:12]:
        ctx.undecided.append(x)
    users(ctx)
