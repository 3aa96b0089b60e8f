"""The command queues: indices, order and locking (C26), rate limiting (C27)."""
from . import prop
from ..lib import *
from ..cases import *
from .server import has, put, strip_str, behind, moved, SRV, CMD

Q = "BedrockCommandQueue::"
BQ = "BedrockBlockingCommandQueue::"
QUEUE, LOOK, MUTEX = Q + "_queue", Q + "_lookupByTimeout", Q + "_queueMutex"


def txt(e):
    """The literal text of an expression."""
    e = strip_str(e)
    return str(e.get("v", "")) if isinstance(e, dict) and e.get("k") == "str" else ""


def no_numbers(t):
    """Counters decide nothing here."""
    return frozenset(y for y in t if y[0] != "env")


def deep(s):
    """Every expression below a statement."""
    if isinstance(s, dict):
        yield s
        for v in s.values():
            yield from deep(v)
    elif isinstance(s, list):
        for v in s:
            yield from deep(v)


def of_queue(h, e, fr):
    return h["file"].startswith("BedrockCommandQueue") and h["q"].split("::")[-1] not in ("_dequeue", "push", "ItemTimeoutPair") and not h.get("isctor")


def field(e, fr, g):
    """The container a call is made on."""
    return mutex_field_in(e, fr, g) if isinstance(e, dict) else None


def init_of(e, fr, g):
    """What a local (even one that is stepped in a loop) starts from."""
    e = strip(e)
    d = 0
    while isinstance(e, dict) and d < 20:
        d += 1
        if e.get("k") == "var" and e.get("id"):
            kind, v, f = g.lookup(e["id"], fr)
            if kind == "env":
                e, fr = strip(v[0]), v[1]
                continue
            if v and v.get("decl") and isinstance(v["decl"].get("init"), dict):
                e, fr = strip(v["decl"]["init"]), f
                continue
            return e, fr
        if e.get("k") == "ctor" and len([a for a in e.get("a", ()) if a.get("k") != "defarg"]) == 1:
            e = strip(e["a"][0])
            continue
        if e.get("k") == "call" and e.get("q") in ("std::move", "std::forward") and e.get("a"):
            e = strip(e["a"][0])
            continue
        return e, fr
    return e, fr


def source(e, fr, g):
    """Where an iterator comes from: (container, 'begin'|'range'|'find', key expression, frame, iterator variable)."""
    var = strip(e)
    o, f = init_of(e, fr, g)
    if isinstance(o, dict) and o.get("k") == "mem" and o.get("n") == "first" and "b" in o:       # of a pair of iterators
        o, f = init_of(o["b"], f, g)
        if not (isinstance(o, dict) and o.get("k") == "call" and o["q"].endswith("::equal_range")):
            return None
    if isinstance(o, dict) and o.get("k") == "call" and "obj" in o:
        nm = o["q"].split("::")[-1]
        c = field(o["obj"], f, g)
        if c in (QUEUE, LOOK):
            if nm in ("begin", "cbegin"):
                return c, "begin", None, f, g.canon(var, fr)
            if nm in ("equal_range", "find", "lower_bound"):
                return c, "range" if nm == "equal_range" else nm, o["a"][0], f, g.canon(var, fr)
    return None


def part(e, fr, g, d=0):
    """(source of the iterator, path of members) of it->first, it->second.timeout, ..."""
    e = strip(e)
    ms = []
    while isinstance(e, dict) and d < 30:
        d += 1
        if e.get("k") == "mem" and e.get("n") and "b" in e:
            ms.append(e["n"])
            e = strip(e["b"])
            continue
        if e.get("k") == "call" and e.get("op") in ("->", "*") and "obj" in e:
            s = source(e["obj"], fr, g)
            if s:
                return s, tuple(reversed(ms))
            e = strip(e["obj"])
            continue
        if e.get("k") == "un" and e.get("op") in ("*", "&"):
            e = strip(e["e"])
            continue
        if e.get("k") == "var" and e.get("id"):
            kind, v, f = g.lookup(e["id"], fr)
            if kind == "env":
                e, fr = strip(v[0]), v[1]
                continue
            if v and v.get("decl") and isinstance(v["decl"].get("init"), dict) and (not v["assigned"] or v["decl"]["t"].endswith("&")):
                e, fr = strip(v["decl"]["init"]), f
                continue
        if e.get("k") == "ctor" and len([a for a in e.get("a", ()) if a.get("k") != "defarg"]) == 1:
            e = strip(e["a"][0])
            continue
        if e.get("k") == "call" and e.get("q") in ("std::move", "std::forward") and e.get("a"):
            e = strip(e["a"][0])
            continue
        break
    return None


def is_now(e, fr, g):
    o = behind(e, fr, g)[0]
    return isinstance(o, dict) and o.get("k") == "call" and o.get("q") == "STimeNow"


def comparison(e, pol, fr, g):
    """Normalised meaning of a branch taken: ('due', part) | ('same', part, part) | None."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get("k") == "un" and e["op"] == "!":
        return comparison(e["e"], not pol, fr, g)
    if e.get("k") == "call" and e.get("op") in ("==", "!=") and len(([e["obj"]] if "obj" in e else []) + e.get("a", [])) == 2:
        x, y = ([e["obj"]] if "obj" in e else []) + e["a"]
        op = e["op"]
    elif e.get("k") == "bin":
        x, y, op = e["x"], e["y"], e["op"]
    else:
        return None
    if op in ("==", "!="):
        if (op == "==") != pol:
            return None
        a, b = part(x, fr, g), part(y, fr, g)
        if a and b:
            return "same", a, b
        return None
    if op in ("<", "<=", ">", ">="):
        if op in (">", ">="):
            x, y, op = y, x, {">": "<", ">=": "<="}[op]
        # now: x op y is true (pol) or false
        if not pol:
            x, y, op = y, x, {"<": "<=", "<=": "<"}[op]
        # x op y holds
        if is_now(y, fr, g) and part(x, fr, g):
            return "due", part(x, fr, g), op
    return None


def key(s):
    """An iterator's identity."""
    return s[4]


def dequeue(ctx):
    q = Q + "_dequeue"
    rule = "what is taken has timed out or is due, oldest first"
    both = "a command leaves both indices when it is taken"
    g = ctx.graph(q, of_queue)
    erased_match = []

    def events(n, t, facts, x):
        t = no_numbers(t)
        if n.k not in ("call", "icall", "return", "assign"):
            return t
        e = n.e
        if n.k == "return":
            if n.fr is not g.root:
                return t
            tk = has(t, "taken")
            if not tk:
                ctx.bad(rule, q, "nothing", n.where(), "_dequeue can return without having taken a command from the queue", x.trace())
                return t
            ctx.ok(both, "%s at %s" % (tk, n.where()))
            if has(t, "q") != 1:
                ctx.bad(both, q, "queue", n.where(), "_dequeue returns a command that is still in the queue (now without a command)", x.trace())
            if has(t, "l") is None and not (tk == "due" and has(t, "looked")):
                ctx.bad(both, q, "timeouts", n.where(), "_dequeue returns a command whose timeout stays in the list of timeouts", x.trace())
            if has(t, "ended") != 1:
                ctx.bad("queue time is measured once", q, "end", n.where(), "the time the command spent in the queue is stopped %d times" % (has(t, "ended") or 0), x.trace())
            return t
        if n.k == "assign" and isinstance(e, dict) and e.get("k") == "un" and e["op"] == "++" or n.k in ("call", "icall") and isinstance(e, dict) and e.get("op") == "++":
            v = g.canon(e.get("e") or e.get("obj"), n.fr)
            if ("gone", v) in t:
                ctx.bad(both, q, "stepped", n.where(), "an iterator is stepped after its entry was erased", x.trace())
            return t
        if n.k == "assign" or not isinstance(e, dict):
            return t
        nm = n.q.split("::")[-1]
        if n.q == "std::move" and e.get("a"):
            p = part(e["a"][0], n.fr, g)
            if p and p[0][0] == QUEUE and p[1] == ("second", "item"):
                s = p[0]
                if has(t, "taken"):
                    ctx.bad(rule, q, "two", n.where(), "_dequeue takes a second command", x.trace())
                if s[1] == "begin":
                    ctx.ok(rule, "first scheduled at %s" % n.where())
                    if ("due", QUEUE, key(s)) not in t:
                        ctx.bad(rule, q, "early", n.where(), "a command is taken although it may be scheduled in the future", x.trace())
                    if not has(t, "late"):
                        ctx.bad(rule, q, "order", n.where(), "a scheduled command is taken before looking for one that timed out", x.trace())
                    return put(t, "taken", "due")
                k = part(s[2], s[3], g) if s[2] is not None else None
                ctx.ok(rule, "timed out at %s" % n.where())
                if not (k and k[0][0] == LOOK and k[0][1] == "begin" and k[1] == ("second",)):
                    ctx.bad(rule, q, "which", n.where(), "a command is taken that is neither the first scheduled nor the one that timed out first", x.trace())
                    return put(t, "taken", "late")
                if ("due", LOOK, key(k[0])) not in t:
                    ctx.bad(rule, q, "not late", n.where(), "a command that did not time out is taken before its time", x.trace())
                if ("same", key(s), key(k[0])) not in t:
                    ctx.bad(rule, q, "other", n.where(), "a command is taken as timed out although its own timeout may be another", x.trace())
                return put(t, "taken", "late")
        if "obj" in e and nm in ("erase", "clear", "extract", "swap"):
            c = field(e["obj"], n.fr, g)
            if c in (QUEUE, LOOK):
                a = e["a"][0] if e.get("a") else None
                s = source(a, n.fr, g) if a is not None else None
                if nm != "erase" or len(e.get("a", [])) != 1 or "iterator" not in strip(a).get("t", "").lower():
                    ctx.bad(both, q, "all " + c, n.where(), "_dequeue removes more than one entry from %s" % c.split("::")[1], x.trace())
                    return t
                v = g.canon(strip(a), n.fr)
                if c == QUEUE:
                    if not has(t, "taken"):
                        ctx.bad(both, q, "untaken", n.where(), "_dequeue erases a command it did not take", x.trace())
                    t = put(t, "q", (has(t, "q") or 0) + 1) if (has(t, "q") or 0) < 2 else t
                else:
                    if has(t, "taken") == "due":
                        if not any(y[0] == "lsame" and y[1] == v for y in t):
                            ctx.bad(both, q, "wrong timeout", n.where(), "the timeout erased with a command may be another command's", x.trace())
                        erased_match.append(n)
                    elif has(t, "taken") == "late" and not (s and s[1] == "begin"):
                        ctx.bad(both, q, "wrong timeout", n.where(), "the timeout erased with a command that timed out may be another command's", x.trace())
                    t = put(t, "l", 1)
                return t | {("gone", v)}
        if "obj" in e and nm in ("equal_range", "find") and field(e["obj"], n.fr, g) == LOOK:
            t = put(t, "looked", 1)
            erased_match.append(None)
        if "obj" in e and nm in ("size", "empty", "begin") and field(e["obj"], n.fr, g) == LOOK:
            t = put(t, "late", 1)
        if "obj" in e and field(e["obj"], n.fr, g) == Q + "_endFunction" or n.q.startswith("std::function") and "obj" in e and strip(e["obj"]).get("q") == Q + "_endFunction":
            if not has(t, "taken"):
                ctx.bad("queue time is measured once", q, "early", n.where(), "queue time stops for a command that was not taken", x.trace())
            t = put(t, "ended", min(2, (has(t, "ended") or 0) + 1))
        return t

    def edges(n, lab, m, t):
        if lab == "exc":
            return STOP if n.k != "throw" else t
        if n.k == "branch" and lab in ("T", "F"):
            c = comparison(n.e, lab == "T", n.fr, g)
            if c and c[0] == "due":
                s, ms = c[1]
                if ms == ("first",):
                    t = t | {("due", s[0], key(s))}
            if c and c[0] == "same":
                (s1, m1), (s2, m2) = c[1], c[2]
                for (sa, ma), (sb, mb) in (((s1, m1), (s2, m2)), ((s2, m2), (s1, m1))):
                    if sa[0] == QUEUE and ma == ("second", "timeout") and sb[0] == LOOK and mb == ("first",):
                        t = t | {("same", key(sa), key(sb))}
                    if sa[0] == LOOK and ma == ("second",) and sb[0] == QUEUE and mb == ("first",):
                        kp = part(sa[2], sa[3], g) if sa[2] is not None else None
                        if kp and kp[0][0] == QUEUE and kp[1] == ("second", "timeout"):
                            t = t | {("lsame", key(sa))}
        return t
    r = Cases(ctx, g, "none", None, events, track="^$", edges=edges).run([g.entry], frozenset(), frozenset())
    if not any(k == "exit" for k, *_ in r):
        ctx.undecided.append("_dequeue never returns")
    if not [y for y in erased_match if y is not None] :
        ctx.bad(both, q, "never", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "_dequeue never removes the timeout of a command that is due")
    ctx.need(rule, 2)
    ctx.need(both, 2)


def adding(ctx):
    q = Q + "push"
    rule = "a command enters both indices, under its own times, before anyone is told"
    fs = [f for f in ctx.p.byq.get(q, [])]
    fs = [ctx.p.fns[f] if not isinstance(f, dict) else f for f in fs]
    n2 = 0
    for f in fs:
        if len(f["p"]) == 1:
            g = ctx.graph(f, of_queue)
            for n in g.nodes:
                if n.k in ("call", "icall") and n.q == q:
                    o = behind(n.e["a"][1], n.fr, g)[0]
                    ctx.ok(rule, "forwards %s" % g.canon(n.e["a"][1], n.fr))
                    if not (isinstance(o, dict) and o.get("k") == "mem" and o.get("q", "").endswith("::scheduledTime")):
                        ctx.bad(rule, q, "time", n.where(), "push does not queue a command for its scheduled time")
            continue
        g = ctx.graph(f, of_queue)
        n2 += 1
        cmd, tm = g.canon({"k": "var", "id": f["p"][0]["id"], "n": f["p"][0]["n"]}, g.root), f["p"][1]["n"] + "#0"
        cmd = f["p"][0]["n"] + "#0"

        def events(n, t, facts, x):
            e = n.e
            t = HELD(n, no_numbers(t), g)
            if n.k not in ("call", "icall") or not isinstance(e, dict):
                return t
            nm = n.q.split("::")[-1]
            if "obj" in e and nm in ("insert", "emplace", "emplace_hint"):
                c = field(e["obj"], n.fr, g)
                flat = []

                def flatten(a):
                    a = strip(a)
                    if isinstance(a, dict) and (a.get("k") in ("ctor", "init") or a.get("k") == "call" and a.get("q") in ("std::make_pair", "std::move", "std::forward")) and a.get("a"):
                        for y in a["a"]:
                            if y.get("k") != "defarg":
                                flatten(y)
                    else:
                        flat.append(a)
                for a in e.get("a", []):
                    flatten(a)

                def what(a):
                    o, f2 = behind(a, n.fr, g)
                    i = init_of(a, n.fr, g)[0]      # (passing a local to make_pair does not change it)
                    if isinstance(i, dict) and i.get("k") == "call" and i.get("q", "").endswith("::timeout"):
                        return "timeout"
                    s = g.canon(o if isinstance(o, dict) else a, f2)
                    return {tm: "time", cmd: "command"}.get(s, s)
                ws = [what(a) for a in flat]
                if c == LOOK:
                    ctx.ok(rule, "timeouts get %s" % ", ".join(map(str, ws)))
                    if ws != ["timeout", "time"]:
                        ctx.bad(rule, q, "timeouts", n.where(), "the list of timeouts gets (%s)" % ", ".join(map(str, ws)), x.trace())
                    return put(t, "l", min(2, (has(t, "l") or 0) + 1))
                if c == QUEUE:
                    ctx.ok(rule, "queue gets %s" % ", ".join(map(str, ws)))
                    if ws != ["time", "command", "timeout"]:
                        ctx.bad(rule, q, "queue", n.where(), "the queue gets (%s)" % ", ".join(map(str, ws)), x.trace())
                    if not has(t, "started"):
                        ctx.bad("queue time is measured once", q, "start", n.where(), "a command is queued without starting to measure its queue time", x.trace())
                    return put(t, "q", min(2, (has(t, "q") or 0) + 1))
            if nm in ("notify_one", "notify_all"):
                if (has(t, "q") != 1 or has(t, "l") != 1) and not holds(t, MUTEX):
                    ctx.bad(rule, q, "notify", n.where(), "a waiting thread is woken before the command is in the queue", x.trace())
                return put(t, "told", 1)
            if n.q.startswith("std::function") and "obj" in e and strip(e["obj"]).get("q") == Q + "_startFunction":
                if has(t, "q"):
                    ctx.bad("queue time is measured once", q, "start late", n.where(), "the command is used after it was put into the queue", x.trace())
                return put(t, "started", 1)
            if nm == "timeout" and has(t, "q"):
                ctx.bad(rule, q, "after", n.where(), "the command is used after it was put into the queue", x.trace())
            return t
        for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" else t).run([g.entry], frozenset(), frozenset()):
            if k == "exit":
                w = "%s:%d" % (f["file"], f["l"])
                if has(t, "q") != 1 or has(t, "l") != 1:
                    ctx.bad(rule, q, "both", w, "push can return with the command %d times in the queue and its timeout %d times in the list of timeouts" % (has(t, "q") or 0, has(t, "l") or 0))
                if not has(t, "told"):
                    ctx.bad(rule, q, "nobody", w, "push can return without waking a thread that waits for commands")
    if n2 != 1:
        ctx.undecided.append("push of a command for a given time not found")
    ctx.need(rule, 3)


def getting(ctx):
    q = Q + "get"
    rule = "get gives up only after a look at the queue that found nothing"
    g = ctx.graph(q, of_queue)

    def events(n, t, facts, x):
        t = HELD(n, no_numbers(t), g)
        if n.k in ("call", "icall"):
            nm = n.q.split("::")[-1]
            if nm == "_dequeue":
                ctx.ok("the queue is used with its lock held", "%s at %s" % (nm, n.where()))
                if not holds(t, MUTEX):
                    ctx.bad("the queue is used with its lock held", q, "_dequeue", n.where(), "_dequeue is called without the queue's lock", x.trace())
                return put(t, "look", 1)
            if nm in ("wait", "wait_for", "wait_until") and "condition_variable" in n.q:
                if not has(t, "look"):
                    ctx.bad(rule, q, "wait", n.where(), "get waits without having looked for a command: one that was queued before is not seen until the next one comes", x.trace())
                if len(n.e.get("a", [])) > (1 if nm == "wait" else 2) and n.e["a"][-1].get("k") != "defarg":
                    return t        # with a condition
                return put(t, "look", None)
        if n.k == "throw":
            ctx.ok(rule, n.where())
            if not has(t, "look"):
                ctx.bad(rule, q, "throw", n.where(), "get reports a timeout without looking for a command after the wait", x.trace())
        if n.k == "return" and n.fr is g.root:
            ctx.ok(rule, "returns what _dequeue gave at %s" % n.where())
            if not any(y.get("k") == "call" and y.get("q", "").endswith("::_dequeue") for y in walk(n.e.get("e") or {})) and not any(y.get("k") == "call" and y.get("q", "").endswith("::_dequeue") for y in walk(init_of(n.e.get("e") or {}, n.fr, g)[0] or {})):
                ctx.undecided.append("get returns something else than _dequeue's result")
        return t
    Cases(ctx, g, "none", None, events, track="^$").run([g.entry], frozenset(), frozenset())
    ctx.need(rule, 2)


def removing(ctx):
    """Everything else that takes commands out takes their timeouts out too."""
    p = ctx.p
    rule = "whoever removes commands removes their timeouts"
    lock = "the queue is used with its lock held"
    for f in p.methods_of("BedrockCommandQueue") + p.methods_of("BedrockBlockingCommandQueue"):
        if not f.get("body") or f.get("isctor") or f.get("isdtor"):
            continue
        nm = f["q"].split("::")[-1]
        g = ctx.graph(f, of_queue)

        def ends(t, w, x):
            ctx.ok(rule, "%s stops the queue's clock" % f["q"])
            if (has(t, "out") or 0) != (has(t, "ended") or 0):
                ctx.bad(rule, f["q"], "clock", w, "%s takes a command out %d times and stops its queue time %d times" % (f["q"], has(t, "out") or 0, has(t, "ended") or 0), x.trace() if x else [])

        def events(n, t, facts, x):
            t = HELD(n, no_numbers(t), g)
            if n.k in ("call", "icall") and isinstance(n.e, dict) and "obj" in n.e:
                c = field(n.e["obj"], n.fr, g)
                m = n.q.split("::")[-1]
                if c in (QUEUE, LOOK):
                    if nm != "_dequeue":
                        ctx.ok(lock, "%s::%s" % (nm, m))
                        if not holds(t, MUTEX):
                            ctx.bad(lock, f["q"], m, n.where(), "%s uses %s without the queue's lock" % (f["q"], c.split("::")[1]), x.trace())
                    if m in ("erase", "clear", "extract", "swap") and nm != "_dequeue":
                        t = put(t, "q" if c == QUEUE else "l", 1)
            if nm != "_dequeue":
                if n.k in ("loop", "rangehead") and (has(t, "out") or has(t, "ended")):
                    ends(t, n.where(), x)
                    t = put(put(t, "out", None), "ended", None)
                if n.k in ("call", "icall") and n.q == "std::move" and any(y.get("k") == "mem" and y.get("q") == Q + "ItemTimeoutPair::item" for a in n.e["a"] for y in walk(strip(behind(a, n.fr, g)[0]) if not any(z.get("k") == "mem" for z in walk(a)) else a)):
                    t = put(t, "out", min(2, (has(t, "out") or 0) + 1))
                if n.k in ("call", "icall") and isinstance(n.e, dict) and "obj" in n.e and mutex_field_in(n.e["obj"], n.fr, g) == Q + "_endFunction":
                    t = put(t, "ended", min(2, (has(t, "ended") or 0) + 1))
            if n.k in ("loop", "rangehead") and isinstance(n.e, dict) and any(y.get("k") == "call" and "obj" in y and y["q"].split("::")[-1] == "erase" and field(y["obj"], n.fr, g) == LOOK for y in deep(n.e)):
                t = put(t, "looked", 1)     # a loop over the commands that takes out their timeouts
            if n.k == "rangehead" and field(n.e.get("range"), n.fr, g) in (QUEUE, LOOK):
                ctx.ok(lock, "%s" % nm)
                if not holds(t, MUTEX):
                    ctx.bad(lock, f["q"], "loop", n.where(), "%s reads the queue without its lock" % f["q"], x.trace())
            return t
        for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$").run([g.entry], frozenset(), frozenset()):
            if k == "exit" and nm != "_dequeue":
                if has(t, "q") or has(t, "l"):
                    ctx.ok(rule, f["q"])
                if has(t, "q") and not has(t, "l") and not has(t, "looked") or has(t, "l") and not has(t, "q"):
                    ctx.bad(rule, f["q"], "one", "%s:%d" % (f["file"], f["l"]), "%s removes entries from %s only" % (f["q"], "the queue" if has(t, "q") else "the list of timeouts"))
    ctx.need(rule, 2)
    ctx.need(lock, 6)


def timing(ctx):
    rule = "each queue measures its own time"
    for cls, want in (("BedrockCommandQueue::", "QUEUE_WORKER"), ("BedrockBlockingCommandQueue::", "QUEUE_BLOCKING")):
        for nm in ("startTiming", "stopTiming"):
            g = ctx.graph(cls + nm, lambda h, e, fr: False)
            hit = [n for n in g.nodes if n.k in ("call", "icall") and n.q == CMD + nm]
            ctx.ok(rule, cls + nm)
            if not hit or not all((const_of(n.e["a"][0]) or "").endswith("::" + want) for n in hit):
                ctx.bad(rule, cls + nm, want, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "%s%s does not call %s(%s)" % (cls, nm, nm, want))


@prop("C26")
def c26(ctx):
    dequeue(ctx)
    adding(ctx)
    getting(ctx)
    removing(ctx)
    timing(ctx)


# ------------------------------------------------------------------------------------------------ rate limiting
IDKEY, METHOD = "blockingQueueRateLimitIdentifier", "methodLine"
IDS, CMDS = BQ + "_identifierStates", BQ + "_commandStates"
UNTIL, SAMPLES = BQ + "IdentifierState::blockedUntil", BQ + "IdentifierState::commands"
BKEEP = ("push", "_dequeue", "isBlocked", "_isBlocked", "_recordAndCheck", "_getState", "_getOrCreateState", "_now", "clear", "clearRateLimits")


def of_blocking(h, e, fr):
    return h["file"].startswith(("BedrockBlockingCommandQueue", "BedrockCommandQueue")) and h["q"].split("::")[-1] not in BKEEP and not h.get("isctor")


def fork(g, n, t, vals, tag):
    c = g.canon(n.e, n.fr)
    return [put(env_set(t, c, v), tag, v) for v in vals]


def asked(n, g):
    """The command whose own identifier and method line isBlocked is asked about."""
    a, b = (g.canon(behind(x, n.fr, g)[0], behind(x, n.fr, g)[1]) for x in n.e["a"][:2])
    if a and b and a.endswith("." + IDKEY) and b.endswith(".request." + METHOD) and a[:-len(IDKEY) - 1] == b[:-len(METHOD) - 9]:
        return a[:-len(IDKEY) - 1]
    return None


def same_var(a, b):
    return a is not None and b is not None and re.sub(r"^\*|^&", "", a) == re.sub(r"^\*|^&", "", b)


def refusing(ctx):
    rule = "a rate-limited command does not enter the blocking queue, and one found there is answered with 503"
    q = BQ + "push"
    g = ctx.graph(q, of_blocking)

    def events(n, t, facts, x):
        if n.k in ("call", "icall") and n.q == BQ + "isBlocked":
            c = asked(n, g)
            ctx.ok(rule, "asks about %s at %s" % (c, n.where()))
            if c is None:
                ctx.bad(rule, q, "other", n.where(), "push does not ask about the command's own identifier and method line", x.trace())
            return fork(g, n, put(t, "who", c), (0, 1), "blocked")
        if n.k in ("call", "icall") and n.q == Q + "push":
            if has(t, "blocked") is None:
                ctx.bad(rule, q, "unasked", n.where(), "a command enters the blocking queue without being checked against the rate limits", x.trace())
            elif has(t, "blocked"):
                ctx.bad(rule, q, "enters", n.where(), "a rate-limited command enters the blocking queue", x.trace())
            return put(t, "in", 1)
        if n.k in ("call", "icall") and n.q == "std::move" and not has(t, "in"):
            t = put(t, "moved", 1)
        if n.k == "throw":
            ctx.ok(rule, "refuses at %s" % n.where())
            if has(t, "blocked") != 1:
                ctx.bad(rule, q, "refused", n.where(), "push refuses a command that is not rate limited", x.trace())
            if has(t, "moved"):
                ctx.bad(rule, q, "gone", n.where(), "push throws after it took the command from its caller, who has to answer it", x.trace())
        return t
    for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$").run([g.entry], frozenset(), frozenset()):
        if k == "exit" and not has(t, "in"):
            ctx.bad(rule, q, "lost", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "push can return without queueing the command")
    q = BQ + "_dequeue"
    g2 = ctx.graph(q, of_blocking)

    def events2(n, t, facts, x):
        if n.k in ("call", "icall"):
            if n.q == Q + "_dequeue":
                return put(t, "got", 1)
            if n.q == BQ + "isBlocked":
                c = asked(n, g2)
                ctx.ok(rule, "asks about %s at %s" % (c, n.where()))
                if c is None:
                    ctx.bad(rule, q, "other", n.where(), "_dequeue does not ask about the command's own identifier and method line", x.trace())
                return fork(g2, n, t, (0, 1), "blocked")
        w = None
        if n.k in ("assign", "call", "icall") and isinstance(n.e, dict):
            e = n.e
            w = (e["x"], e["y"]) if is_assign(e) else (e["obj"], e["a"][0]) if e.get("op") == "=" and "obj" in e and e.get("a") else None
        if w:
            m = strip(w[0])
            if m.get("k") == "mem" and (m.get("q") or "").endswith("Command::complete"):
                t = put(t, "complete", value(w[1], n.fr, g2, t))
            elif m.get("k") == "mem" and m.get("n") == METHOD:
                s = txt(w[1])
                t = put(t, "503", 1 if s.startswith("503") and (g2.canon(m, n.fr) or "").endswith(".response." + METHOD) else 0)
        if n.k == "return" and n.fr is g2.root:
            b = has(t, "blocked")
            ctx.ok(rule, "returns %s at %s" % ({0: "as it was", 1: "complete with 503", None: "unchecked"}[b], n.where()))
            if b is None:
                ctx.bad(rule, q, "unasked", n.where(), "_dequeue returns a command without checking it against the rate limits", x.trace())
            elif b and (has(t, "complete") != 1 or has(t, "503") != 1):
                ctx.bad(rule, q, "runs", n.where(), "a rate-limited command leaves the blocking queue without being marked complete and answered with 503", x.trace())
            elif not b and (has(t, "complete") is not None or has(t, "503") is not None):
                ctx.bad(rule, q, "refused", n.where(), "a command that is not rate limited leaves the blocking queue as complete", x.trace())
        return t
    for k, n, t, facts in Cases(ctx, g2, "none", None, events2, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" and n.k in ("call", "icall") and n.q in (Q + "_dequeue",) else t).run([g2.entry], frozenset(), frozenset()):
        if k == "exc" and has(t, "got"):
            ctx.bad(rule, q, "drops", "%s:%d" % (g2.root_fn["file"], g2.root_fn["l"]), "_dequeue can throw after it took a command from the queue, which is then never answered")
    ctx.need(rule, 5)


def limits(ctx):
    rule = "blocked means that the identifier or the command name is inside its block"
    q = BQ + "isBlocked"
    g = ctx.graph(q, of_blocking)
    names = [a["n"] + "#0" for a in g.root_fn["p"]]

    def events(n, t, facts, x):
        if n.k in ("call", "icall") and n.q == BQ + "_isBlocked":
            m, k = mutex_field_in(n.e["a"][0], n.fr, g), g.canon(n.e["a"][1], n.fr)
            o = behind(n.e["a"][2], n.fr, g)[0]
            ctx.ok(rule, "%s of %s" % (k, (m or "?").split("::")[-1]))
            tag = {(IDS, names[0]): "id", (CMDS, names[1]): "cmd"}.get((m, k))
            if not tag:
                ctx.bad(rule, q, "lookup", n.where(), "isBlocked looks up %s in %s" % (k, m), x.trace())
                return t
            if not (isinstance(o, dict) and o.get("k") == "call" and o["q"].endswith("::_now")):
                ctx.bad(rule, q, "when", n.where(), "isBlocked does not compare with the current time", x.trace())
            return fork(g, n, t, (0, 1), tag)
        if n.k == "return" and n.fr is g.root:
            v = value(n.e["e"], n.fr, g, t)
            if v is None:
                v = env_get(t, "ret%d" % g.root.uid)
            a, b = has(t, "id"), has(t, "cmd")
            want = 1 if a or b else 0 if a == 0 and b == 0 else None
            if want is None or v is None or bool(v) != bool(want):
                ctx.bad(rule, q, "answer", n.where(), "isBlocked answers %s when the identifier is %s and the command name is %s" % (
                    {None: "something unknown", 0: "no", 1: "yes"}.get(v, v), *({None: "not looked up", 0: "not blocked", 1: "blocked"}[y] for y in (a, b))), x.trace())
        return t
    Cases(ctx, g, "none", None, events, track="^$").run([g.entry], frozenset(), frozenset())

    q = BQ + "_isBlocked"
    g2 = ctx.graph(q, of_blocking)
    key_, now = g2.root_fn["p"][1]["n"] + "#0", g2.root_fn["p"][2]["n"] + "#0"

    def until(e, pol, fr, g, now):
        """True / False when the branch says that blockedUntil > now / <= now."""
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
            return until(e["e"], not pol, fr, g, now)
        if not isinstance(e, dict) or e.get("k") != "bin" or e["op"] not in ("<", ">", "<=", ">="):
            return None
        x, y, op = strip(e["x"]), strip(e["y"]), e["op"]
        if op in ("<", "<="):
            x, y, op = y, x, {"<": ">", "<=": ">="}[op]

        def is_until(z):
            return isinstance(behind(z, fr, g)[0], dict) and behind(z, fr, g)[0].get("q") == UNTIL

        def is_now_(z):
            o, f = behind(z, fr, g)
            return g.canon(o, f) == now or g.canon(z, fr) == now
        if op == ">" and is_until(x) and is_now_(y):
            return pol
        if op == ">=" and is_now_(x) and is_until(y):
            return not pol
        return None

    def edges(n, lab, m, t):
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            u = until(e, pol, n.fr, g2, now)
            if u is not None:
                return put(t, "until", u)
            if isinstance(e, dict) and e.get("k") == "call" and e["q"].endswith("::empty") and g2.canon(e["obj"], n.fr) == key_ and pol:
                return put(t, "none", 1)
            if isinstance(e, dict) and e.get("k") == "call" and e["q"].endswith("operator bool") and not pol:
                return put(t, "none", 1)
            if isinstance(e, dict) and e.get("op") in ("==", "!=") and any(isinstance(strip(y), dict) and strip(y).get("k") == "null" for y in ([e["obj"]] if "obj" in e else []) + e.get("a", [])) and (e["op"] == "==") == pol:
                return put(t, "none", 1)
        return t

    def events2(n, t, facts, x):
        if n.k in ("call", "icall") and n.q == BQ + "_getState" and g2.canon(n.e["a"][1], n.fr) != key_:
            ctx.bad(rule, q, "key", n.where(), "_isBlocked looks up another key", x.trace())
        if n.k == "return" and n.fr is g2.root:
            e = strip(n.e["e"])
            u = until(e, True, n.fr, g2, now)
            v = value(e, n.fr, g2, t)
            ctx.ok(rule, "answer at %s" % n.where())
            if u is True or v is not None and has(t, "until") is not None and bool(v) == has(t, "until") or v == 0 and has(t, "none"):
                return t
            ctx.bad(rule, q, "answer", n.where(), "_isBlocked can answer something else than whether the block of the key ends in the future", x.trace())
        return t
    Cases(ctx, g2, "none", None, events2, track="^$", edges=edges).run([g2.entry], frozenset(), frozenset())
    ctx.need(rule, 4)

    # recording
    rule2 = "a block starts only when the time in the window exceeds the threshold, and lasts as configured"
    q = BQ + "_recordAndCheck"
    g3 = ctx.graph(q, of_blocking)
    P = {a["n"]: a["n"] + "#0" for a in g3.root_fn["p"]}
    _, pkey, pthr, pnow, pel, _ = [a["n"] + "#0" for a in g3.root_fn["p"]]

    def ge(e, pol, fr):
        """(x, y) such that x >= y holds after the branch."""
        e = strip(e)
        while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
            e, pol = strip(e["e"]), not pol
        if not isinstance(e, dict) or e.get("k") != "bin":
            return None
        x, y, op = e["x"], e["y"], e["op"]
        if op in ("<", "<="):
            x, y, op = y, x, {"<": ">", "<=": ">="}[op]
        if op in (">", ">="):
            if not pol:
                x, y, op = y, x, {">": ">=", ">=": ">"}[op]
            return g3.canon(x, fr), g3.canon(y, fr), op
        return None

    def edges3(n, lab, m, t):
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            u = until(e, pol, n.fr, g3, pnow)
            if u is not None:
                t = put(t, "until", u)
            c = ge(e, pol, n.fr)
            if c:
                t = frozenset(y for y in t if not (y[0] == "ge" and {y[1], y[2]} == {c[0], c[1]})) | {("ge",) + c}
                if c[1] == pthr:
                    t = put(t, "over", c[2] == ">")
                    t = put(t, "sum", c[0])
                if c[0] == pthr:
                    t = put(t, "over", False)
            if isinstance(e, dict) and e.get("k") == "call" and e["q"].endswith("::empty") and g3.canon(e["obj"], n.fr) == pkey:
                t = put(t, "key", 0 if pol else 1)
            z = None
            if isinstance(e, dict) and e.get("k") == "bin" and e["op"] in ("==", "!="):
                for a, b in ((e["x"], e["y"]), (e["y"], e["x"])):
                    if g3.canon(a, n.fr) == pthr and value(b, n.fr, g3, frozenset()) == 0:
                        z = (e["op"] == "==") == pol
            elif g3.canon(e, n.fr) == pthr:
                z = not pol
            if z is not None:
                t = put(t, "off", z)
        return t

    def subtractions(n, t, x):
        for e in ([n.e] if isinstance(n.e, dict) and n.k not in ("log", "branch", "decl") else [n.e.get("init")] if n.k == "decl" and isinstance(n.e, dict) else [n.e] if n.k == "branch" else []):
            if not isinstance(e, dict):
                continue
            for y in walk(e):
                if y.get("k") == "bin" and y["op"] == "-" and re.match(r"(const )?(unsigned|size_t|u?int64_t|uint)", y.get("t", "unsigned")):
                    yield y

    seen = set()

    def events3(n, t, facts, x):
        t = no_numbers(t)
        e = n.e
        for y in subtractions(n, t, x):
            a, b = g3.canon(y["x"], n.fr), g3.canon(y["y"], n.fr)
            if n.k in ("decl",) and isinstance(n.e.get("init"), dict) and any(z.get("k") == "cond" for z in walk(n.e["init"])):
                # (the subtraction inside a conditional expression is guarded by its condition)
                ok = False
                for z in walk(n.e["init"]):
                    if z.get("k") == "cond":
                        for br, pol in ((z["x"], True), (z["y"], False)):
                            if any(w is y for w in walk(br)):
                                c = ge(z["c"], pol, n.fr)
                                ok = ok or bool(c) and c[:2] == (a, b)
                if ok:
                    ctx.ok(rule2, "%s - %s" % (a, b))
                    continue
            ctx.ok(rule2, "%s - %s" % (a, b))
            if not any(z[0] == "ge" and z[1:3] == (a, b) for z in t):
                ctx.bad(rule2, q, "wraps %s - %s" % (a, b), n.where(), "%s - %s can wrap around, which makes the time in the window huge" % (a, b), x.trace())
        w = None
        if n.k in ("assign", "call", "icall") and isinstance(e, dict):
            w = (e["x"], e["y"]) if is_assign(e) else (e["obj"], e["a"][0]) if e.get("op") in ("=", "+=") and "obj" in e and e.get("a") else None
        if w and strip(w[0]).get("q") == UNTIL:
            ctx.ok(rule2, "block starts at %s" % n.where())
            if has(t, "until") is not False:
                ctx.bad(rule2, q, "extends", n.where(), "a block can be set although one is running: further hits extend it", x.trace())
            if has(t, "over") is not True:
                ctx.bad(rule2, q, "under", n.where(), "a block starts although the time in the window does not exceed the threshold", x.trace())
            if has(t, "off") is not False:
                ctx.bad(rule2, q, "disabled", n.where(), "a block starts although a threshold of 0 disables it", x.trace())
            s = set()
            v = strip(w[1])
            parts = [v]
            while parts:
                z = strip(parts.pop())
                o = behind(z, n.fr, g3)[0]
                if isinstance(z, dict) and z.get("k") == "bin" and z["op"] == "+":
                    parts += [z["x"], z["y"]]
                elif isinstance(o, dict) and o.get("k") == "bin" and o["op"] == "+":
                    parts += [o["x"], o["y"]]
                else:
                    m = mutex_field_in(o, n.fr, g3) if isinstance(o, dict) else None
                    if isinstance(o, dict) and o.get("k") == "call" and "obj" in o:
                        m = mutex_field_in(o["obj"], n.fr, g3)
                    s.add(m if m and m.startswith(BQ) else g3.canon(z, n.fr))
            if s != {pnow, BQ + "_blockDurationUS"}:
                ctx.bad(rule2, q, "length", n.where(), "a block does not end after the configured duration", x.trace())
            return put(t, "set", 1)
        if n.k in ("call", "icall") and isinstance(e, dict) and "obj" in e and n.q.split("::")[-1] in ("push_back", "emplace_back", "push_front", "insert") and mutex_field_in(e["obj"], n.fr, g3) == SAMPLES:
            flat = []
            for y in (z for a in e["a"] for z in walk(a)):
                c = g3.canon(y, n.fr) if y.get("k") == "var" else None
                if c and c not in flat:
                    flat.append(c)
            ctx.ok(rule2, "sample %s" % ", ".join(flat))
            if flat != [pnow, pel]:
                ctx.bad(rule2, q, "sample", n.where(), "the recorded sample is (%s)" % ", ".join(flat), x.trace())
            if has(t, "until") is True:
                ctx.bad(rule2, q, "while blocked", n.where(), "samples are recorded during a block", x.trace())
            return put(t, "sampled", 1)
        if n.k in ("call", "icall") and isinstance(e, dict) and "obj" in e and n.q.split("::")[-1] in ("clear", "swap", "pop_back") and mutex_field_in(e["obj"], n.fr, g3) == SAMPLES:
            ctx.bad(rule2, q, "all samples", n.where(), "samples are dropped without being compared with the window", x.trace())
        if n.k in ("call", "icall") and n.q == BQ + "_getOrCreateState" and g3.canon(e["a"][1], n.fr) != pkey:
            ctx.bad(rule2, q, "key", n.where(), "the sample is recorded for another key", x.trace())
        return t
    for k, n, t, facts in Cases(ctx, g3, "none", None, events3, track="^$", edges=edges3).run([g3.entry], frozenset(), frozenset()):
        if k != "exit":
            continue
        if has(t, "off") is not True and has(t, "key") != 0 and has(t, "until") is not True and not has(t, "sampled"):
            ctx.bad(rule2, q, "missed", "%s:%d" % (g3.root_fn["file"], g3.root_fn["l"]), "the time of a command can go unrecorded")
        if has(t, "over") is True and has(t, "until") is False and not has(t, "set"):
            ctx.bad(rule2, q, "never", "%s:%d" % (g3.root_fn["file"], g3.root_fn["l"]), "the threshold can be exceeded without a block")
        if has(t, "sampled") and has(t, "over") is None:
            ctx.bad(rule2, q, "unchecked", "%s:%d" % (g3.root_fn["file"], g3.root_fn["l"]), "a sample is recorded without checking the threshold")
    ctx.need(rule2, 4)


def attributed(ctx):
    rule = "time on the blocking thread counts for the command that used it"
    q = BQ + "recordExecutionTime"
    g = ctx.graph(q, of_blocking)
    a, b, c = [y["n"] + "#0" for y in g.root_fn["p"]]
    want = {(IDS, a): BQ + "_identifierThresholdUS", (CMDS, b): BQ + "_commandThresholdUS"}
    found = set()
    for n in g.nodes:
        if n.k in ("call", "icall") and n.q == BQ + "_recordAndCheck":
            z = n.e["a"]
            k = mutex_field_in(z[0], n.fr, g), g.canon(z[1], n.fr)
            o = behind(z[2], n.fr, g)[0]
            th = mutex_field_in(o["obj"], n.fr, g) if isinstance(o, dict) and o.get("k") == "call" and "obj" in o else mutex_field_in(o, n.fr, g)
            ctx.ok(rule, "%s in %s" % (k[1], k[0].split("::")[-1]))
            if want.get(k) != th or g.canon(z[4], n.fr) != c:
                ctx.bad(rule, q, "which", n.where(), "recordExecutionTime records %s in %s against %s" % (k[1], k[0], th))
            found.add((k, n.i))
    ev = {i: k for k, i in found}

    def events(n, t, facts, x):
        return t | {("rec", ev[n.i])} if n.i in ev else t
    for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" else t).run([g.entry], frozenset(), frozenset()):
        if k == "exit":
            for w in want:
                if ("rec", w) not in t:
                    ctx.bad(rule, q, "missing " + w[1], "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "recordExecutionTime can return without recording %s" % w[1])
    # the worker
    q = SRV + "worker"
    g2 = ctx.graph(q, lambda h, e, fr: bool(h.get("lambda")))
    n_ = 0

    def events2(n, t, facts, x):
        nonlocal n_
        t = no_numbers(t)
        if n.k in ("call", "icall"):
            if n.q == Q + "get":
                return put(put(frozenset(y for y in t if y[0] != "st"), "ran", None), "got", 1)
            if n.q == SRV + "runCommand":
                return put(t, "ran", 1)
            if n.q == BQ + "recordExecutionTime":
                n_ += 1
                ctx.ok(rule, "worker at %s" % n.where())
                o1, f1 = init_of(n.e["a"][0], n.fr, g2)
                o2, f2 = init_of(n.e["a"][1], n.fr, g2)
                s1 = {g2.canon(y, f1).split(".")[-1] for y in walk(o1) if y.get("k") == "mem" and y.get("n") == IDKEY} if isinstance(o1, dict) else set()
                s2 = {y.get("n") for y in walk(o2) if y.get("k") == "mem"} if isinstance(o2, dict) else set()
                if s1 != {IDKEY} or METHOD not in s2 or "request" not in s2:
                    ctx.bad(rule, q, "whose", n.where(), "the worker does not record the time against the command's identifier and method line", x.trace())
                o3, f3 = init_of(n.e["a"][2], n.fr, g2)
                since = strip(o3["y"]).get("id") if isinstance(o3, dict) and o3.get("k") == "bin" and o3.get("op") == "-" else None
                if since is not None and ("st", since) not in t:
                    ctx.bad(rule, q, "since", n.where(), "the time recorded does not start between taking the command from the queue and running it", x.trace())
                if not has(t, "ran"):
                    ctx.bad(rule, q, "before", n.where(), "the time is recorded before the command ran", x.trace())
                return put(t, "ran", None)
        if n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and has(t, "ran") and any(y.get("k") == "mem" and y.get("n") == IDKEY for y in walk(n.e["init"])):
            ctx.bad(rule, q, "late", n.where(), "the command's identifier is read after the command was given away", x.trace())
        if n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and has(t, "got") and not has(t, "ran") and any(y.get("q") == "STimeNow" for y in walk(n.e["init"])):
            t = t | {("st", n.e.get("id"))}
        w = (n.e["x"], n.e["y"]) if n.k == "assign" and isinstance(n.e, dict) and is_assign(n.e) and "x" in n.e else None
        if w and strip(w[0]).get("id") and has(t, "got") and not has(t, "ran") and any(y.get("q") == "STimeNow" for y in walk(w[1])):
            t = t | {("st", strip(w[0])["id"])}
        return t
    Cases(ctx, g2, "none", None, events2, track="^$").run([g2.entry], frozenset(), frozenset())
    # nothing but which queue the thread serves decides whether its commands' time is recorded
    recs = [n for n in g2.nodes if n.k in ("call", "icall") and n.q == BQ + "recordExecutionTime"]
    if recs:
        def after(i, stop):
            seen_, todo = set(), [i]
            while todo:
                m = todo.pop()
                if m.i in seen_:
                    continue
                seen_.add(m.i)
                if stop(m):
                    continue
                todo += [w for w, l in m.succ if l != "exc"]
            return seen_
        isget = lambda n: n.k in ("call", "icall") and n.q == Q + "get"
        hits = {n.i for n in recs}
        for n in g2.nodes:
            if n.k in ("call", "icall") and n.q == SRV + "runCommand":
                for j in after(n, lambda m: isget(m) or m.i in hits):
                    b = g2.nodes[j]
                    if b.k != "branch" or not isinstance(b.e, dict):
                        continue
                    outs = [bool(after(m, lambda m: isget(m) or m.i in hits) & hits) for m, l in b.succ if l in ("T", "F")]
                    if len(set(outs)) < 2:
                        continue
                    odd, todo, seen_ = set(), [(b.e, b.fr)], set()
                    while todo:
                        e, fr = todo.pop()
                        for y in deep(e):
                            if y.get("k") == "var" and y.get("id") and y.get("vk") != "fn":
                                o, f = init_of(y, fr, g2)
                                if isinstance(o, dict) and o is not y and not (o.get("k") == "var" and o.get("id") == y["id"]):
                                    if y["id"] not in seen_:
                                        seen_.add(y["id"])
                                        todo.append((o, f))
                                elif y["id"] not in {a["id"] for a in g2.root_fn["p"]}:
                                    odd.add(y["n"])
                            elif y.get("k") == "mem" and y.get("q") not in (SRV + "_blockingCommandQueue", SRV + "_commandQueue"):
                                odd.add(y.get("n"))
                    ctx.ok(rule, "whether it is recorded is decided at %s" % b.where())
                    if odd:
                        ctx.bad(rule, q, "some only", b.where(), "whether the time a command took on the blocking thread is recorded depends on %s" % ", ".join(sorted(map(str, odd))))
    configured(ctx)
    if not n_:
        ctx.bad(rule, q, "never", "%s:%d" % (g2.root_fn["file"], g2.root_fn["l"]), "the worker never records the time a command took on the blocking thread")
    ctx.need(rule, 3)


SETTINGS = {"setWindow": ("_windowUS", "windowMS"), "setIdentifierThreshold": ("_identifierThresholdUS", "identifierThresholdMS"),
            "setCommandThreshold": ("_commandThresholdUS", "commandThresholdMS"), "setBlockDuration": ("_blockDurationUS", "blockDurationMS")}


def configured(ctx):
    """What an operator configures is what the queue compares with, in its unit."""
    rule = "the configured limits are the ones used"
    p = ctx.p
    for nm, (fld, header) in SETTINGS.items():
        f = next((y for y in p.methods_of("BedrockBlockingCommandQueue") if y["q"] == BQ + nm and y.get("body")), None)
        if not f:
            continue
        g = ctx.graph(f, lambda h, e, fr: False)
        wrote = set()
        for n in g.nodes:
            e = n.e
            if n.k in ("call", "icall") and isinstance(e, dict) and "obj" in e and (n.q.split("::")[-1] in ("exchange", "store") or e.get("op") == "=") and e.get("a"):
                wrote.add((mutex_field_in(e["obj"], n.fr, g), g.canon(behind(e["a"][0], n.fr, g)[0], n.fr)))
        ctx.ok(rule, BQ + nm)
        if wrote != {(BQ + fld, f["p"][0]["n"] + "#0")}:
            ctx.bad(rule, BQ + nm, "field", "%s:%d" % (f["file"], f["l"]), "%s sets %s" % (nm, sorted(map(str, wrote)) or "nothing"))
    for f in list(p.methods_of("BedrockServer")):
        if not f.get("body"):
            continue
        calls = [y for y in fn_exprs(f) if y.get("k") == "call"]
        for e in calls:
            if e.get("q") == Q + "push" and "obj" in e and any(y.get("q") == SRV + "_blockingCommandQueue" for y in deep(e["obj"])):
                ctx.ok(rule, "push at %s:%s" % (f["file"], e.get("l")))
                ctx.bad(rule, f["q"], "around", "%s:%s" % (f["file"], e.get("l")), "a command is put into the blocking queue without asking the rate limits")
        if not any((e.get("q") or "").startswith(BQ + "set") for e in calls):
            continue
        g = ctx.graph(f, lambda h, e, fr: bool(h.get("lambda")))
        for n in g.nodes:
            if n.k not in ("call", "icall") or not n.q.startswith(BQ) or n.q.split("::")[-1] not in SETTINGS:
                continue
            nm = n.q.split("::")[-1]
            factor, names, todo, d = 1, set(), [(n.e["a"][0], n.fr)], 0
            while todo and d < 40:
                d += 1
                e, fr = todo.pop()
                o, f2 = init_of(e, fr, g)
                if not isinstance(o, dict):
                    continue
                if o.get("k") == "cast":
                    todo.append((o["e"], f2))
                elif o.get("k") == "bin" and o["op"] == "*":
                    for a, b in ((o["x"], o["y"]), (o["y"], o["x"])):
                        v = value(strip(b), f2, g, frozenset())
                        if v is None:
                            todo.append((a, f2)) if value(strip(a), f2, g, frozenset()) is None else None
                            todo.append((b, f2))
                        else:
                            factor *= v
                else:
                    names |= {y["v"] for y in deep(o) if y.get("k") == "str"}
            ctx.ok(rule, "%s x %d into %s" % ("/".join(sorted(map(str, names))), factor, nm))
            if names and SETTINGS[nm][1] not in names or factor != 1000:
                ctx.bad(rule, f["q"], nm, n.where(), "%s gets %s times %d, instead of %s times 1000" % (nm, "/".join(sorted(map(str, names))), factor, SETTINGS[nm][1]))
    ctx.need(rule, 8)


def forgetting(ctx):
    rule = "clearing the rate limits clears both kinds"
    for q, want in ((BQ + "clearRateLimits", {IDS, CMDS}), (BQ + "clear", {IDS, CMDS, QUEUE, LOOK})):
        g = ctx.graph(q, lambda h, e, fr: h["file"].startswith(("BedrockBlockingCommandQueue", "BedrockCommandQueue")))

        def events(n, t, facts, x):
            if n.k in ("call", "icall") and isinstance(n.e, dict) and "obj" in n.e and n.q.split("::")[-1] == "clear":
                e = strip(n.e["obj"])
                fs = {y.get("q") for y in walk(e) if y.get("k") == "mem"} | {mutex_field_in(e, n.fr, g)}
                o, f = origin(e, n.fr, g)
                fs |= {y.get("q") for y in walk(o) if y.get("k") == "mem"} if isinstance(o, dict) else set()
                if strip(e).get("k") == "mem" and "b" in strip(e):
                    fs.add(mutex_field_in(strip(e)["b"], n.fr, g))
                return t | {("cleared", f) for f in fs if f in want}
            return t
        for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$", edges=lambda n, lab, m, t: STOP if lab == "exc" else t).run([g.entry], frozenset(), frozenset()):
            if k == "exit":
                for w in sorted(want):
                    ctx.ok(rule, "%s by %s" % (w.split("::")[-1], q))
                    if ("cleared", w) not in t:
                        ctx.bad(rule, q, w, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "%s can return without clearing %s" % (q, w.split("::")[-1]))
    ctx.need(rule, 6)


@prop("C27")
def c27(ctx):
    refusing(ctx)
    limits(ctx)
    attributed(ctx)
    forgetting(ctx)


# ------------------------------------------------------------------------------------------------ conflict locks
CG = "ConflictLockGuard::"
CM, CC, CO, CF = CG + "mutexes", CG + "mutexCounts", CG + "mutexOrder", CG + "mutexOrderFastLookup"
CTL = CG + "controlMutex"


def of_guard(h, e, fr):
    return h["file"].startswith("ConflictLockGuard") and h["q"] not in (CG + "release",) and not h.get("isctor")


def conflict_field(e, fr, g):
    m = mutex_field_in(e, fr, g)
    if not m:
        o, f = origin(e, fr, g)
        m = mutex_field(o) if isinstance(o, dict) else None
    return m


def keys_in(e, fr, g, own):
    """Which keys an insertion is made under: 'own', or the canonical name."""
    out = []
    for y in deep(e):
        if y.get("k") in ("var", "mem") and y.get("t", "").replace("const ", "").rstrip("&") in ("unsigned long", "uint64_t", "int64_t", "long"):
            c = g.canon(y, fr)
            o, f = behind(y, fr, g)
            out.append("own" if c in own or g.canon(o, f) in own else c)
    return out


def guard_of(ctx):
    p = ctx.p
    rule = "a conflict key's mutex exists and is counted from before a thread waits for it until the thread has unlocked it"
    drop = "only a mutex nobody counts is dropped, from all indices"
    q = CG + "ConflictLockGuard"
    f = next((x for x in p.methods_of("ConflictLockGuard") if x.get("isctor") and len(x["p"]) == 1 and x.get("body")), None)
    if not f:
        ctx.undecided.append("ConflictLockGuard's constructor not found")
        return
    g = ctx.graph(f, of_guard)
    own = {"this._identifier", f["p"][0]["n"] + "#0"}
    ctl = CTL

    def ckey(e, fr):
        c = g.canon(strip(e), fr)
        o, f2 = behind(e, fr, g)
        return "own" if c in own or g.canon(o, f2) in own else c

    def points(e, fr, d=0):
        """The key whose mutex an expression designates, or None."""
        e = strip(e)
        while isinstance(e, dict) and d < 20:
            d += 1
            if e.get("k") == "call" and "obj" in e and conflict_field(e["obj"], fr, g) == CM:
                nm = e["q"].split("::")[-1]
                if nm in ("operator[]", "at", "find"):
                    return ckey(e["a"][0], fr)
                if nm in ("emplace", "try_emplace", "insert"):
                    ks = keys_in(e["a"], fr, g, own)
                    return ks[0] if ks else None
            if e.get("k") == "mem" and "b" in e and e.get("n") in ("second", "first"):
                e = strip(e["b"])
            elif e.get("k") == "un" and e["op"] in ("&", "*"):
                e = strip(e["e"])
            elif e.get("k") == "call" and e.get("op") in ("->", "*") and "obj" in e:
                e = strip(e["obj"])
            elif e.get("k") == "ctor" and len([a for a in e.get("a", ()) if a.get("k") != "defarg"]) == 1:
                e = strip(e["a"][0])
            elif e.get("k") == "var" and e.get("id"):
                kind, v, f2 = g.lookup(e["id"], fr)
                if kind == "env":
                    e, fr = strip(v[0]), v[1]
                    continue
                vs = all_defs(e, fr)
                if not vs:
                    return None
                ks = {points(w, f3, d + 1) for w, f3 in vs}
                return ks.pop() if len(ks) == 1 else None
            else:
                return None
        return None

    def all_defs(v, fr):
        path = g.canon(v, fr)
        out = []
        for n in g.nodes:
            if n.k == "decl" and isinstance(n.e, dict) and n.e.get("id") == v["id"] and isinstance(n.e.get("init"), dict):
                i = strip(n.e["init"])
                if not (i.get("k") == "ctor" and not [a for a in i.get("a", ()) if a.get("k") != "defarg"]):
                    out.append((i, n.fr))
            elif n.k in ("assign", "call", "icall") and isinstance(n.e, dict):
                e = n.e
                w = (e["x"], e["y"]) if is_assign(e) and "x" in e else (e["obj"], e["a"][0]) if e.get("op") == "=" and "obj" in e and e.get("a") else None
                if w and strip(w[0]).get("id") == v["id"]:
                    out.append((strip(w[1]), n.fr))
        return out

    def events(n, t, facts, x):
        t = HELD(n, no_numbers(t), g)
        e = n.e
        if n.k == "assign" and isinstance(e, dict):
            tgt, step = (e["e"], {"++": 1, "--": -1}.get(e["op"])) if e.get("k") == "un" and e["op"] in ("++", "--") else (e["x"], e["op"]) if is_assign(e) and "x" in e else (None, None)
            z = strip(tgt) if tgt is not None else None
            if isinstance(z, dict) and z.get("k") == "call" and "obj" in z and conflict_field(z["obj"], n.fr, g) == CC:
                k = ckey(z["a"][0], n.fr)
                if k == "own" and (step == 1 or step == "+=" and value(e["y"], n.fr, g, frozenset()) == 1):
                    ctx.ok(rule, "counted at %s" % n.where())
                    return count(n, t, x)
                ctx.bad(rule, q, "count " + str(step), n.where(), "the constructor changes a count in another way than adding one to its own", x.trace())
            return t
        if n.k not in ("call", "icall") or not isinstance(e, dict):
            return t
        nm = n.q.split("::")[-1]
        if e.get("op") == "=" and "obj" in e and ("stale",) in t:
            o, f2 = behind(e["obj"], n.fr, g)
            if any(y.get("q") == CF or y.get("k") == "var" and any(z.get("q") == CF for z in deep(behind(y, n.fr, g)[0])) for w in (e["obj"], o) for y in deep(w)):
                t = t - {("stale",)}
        if "obj" in e:
            c = conflict_field(e["obj"], n.fr, g)
            if c in (CM, CC, CO, CF):
                if not holds(t, ctl):
                    ctx.bad(rule, q, "unlocked " + c, n.where(), "%s is used without the control mutex" % c.split("::")[-1], x.trace())
                if nm in ("emplace", "insert", "try_emplace", "push_front", "push_back", "insert_or_assign"):
                    ks = keys_in(e["a"], n.fr, g, own)
                    if not ks or ks[0] != "own":
                        ctx.bad(rule, q, "key " + c, n.where(), "%s gets an entry for another key" % c.split("::")[-1], x.trace())
                    ctx.ok(rule, "%s gets its key at %s" % (c.split("::")[-1], n.where()))
                    if c == CC:
                        vs = [value(y, n.fr, g, frozenset()) for a in e["a"] for y in deep(a) if y.get("k") == "int"]
                        if vs != [1]:
                            ctx.bad(rule, q, "first count", n.where(), "a new mutex is counted %s times" % vs, x.trace())
                        t = count(n, t, x)
                    return (t - {("stale",)} if c == CF and nm == "insert_or_assign" else t) | {("in", c)}
                if nm in ("operator[]", "at") and c == CF and ("in", CO) in t:
                    return (t - {("stale",)}) | {("in", c)}
                if nm == "operator[]" and c == CF:
                    return t | {("in", c)}
                if nm in ("erase", "pop_back", "pop_front", "clear", "extract"):
                    a = e["a"][0] if e.get("a") else None
                    if c == CO:
                        k = order_key(a, n.fr)
                    else:
                        k = ckey(a, n.fr) if a is not None else "all"
                    if k == "own":
                        if c == CO:
                            return (t - {("in", CO)}) | {("stale",)}
                        ctx.bad(drop, q, "own " + c, n.where(), "the constructor drops its own mutex", x.trace())
                        return t
                    ctx.ok(drop, "%s at %s" % (c.split("::")[-1], n.where()))
                    if ("zero", k) not in t:
                        ctx.bad(drop, q, "used " + c, n.where(), "an entry of %s is dropped although its mutex may be in use" % c.split("::")[-1], x.trace())
                    if not has(t, "count"):
                        ctx.bad(drop, q, "uncounted " + c, n.where(), "mutexes are dropped before the thread's own is counted: it could be one of them", x.trace())
                    return t | {("gone", k, c)}
        if nm in ("lock", "try_lock") and "obj" in e and points(e["obj"], n.fr) is None and conflict_field(e["obj"], n.fr, g) == ctl:
            return t
        if nm == "lock" and "obj" in e and "mutex" in n.q:
            k = points(e["obj"], n.fr)
            ctx.ok(rule, "locks %s's at %s" % (k, n.where()))
            if k != "own":
                ctx.bad(rule, q, "other mutex", n.where(), "the mutex locked is not the one of the guard's own key", x.trace())
            if holds(t, ctl):
                ctx.bad(rule, q, "waits locked", n.where(), "a thread waits for a conflict key while holding the control mutex: whoever has the key cannot give it back", x.trace())
            if has(t, "count") != 1:
                ctx.bad(rule, q, "uncounted", n.where(), "a thread waits for a mutex it is not counted for: the mutex can be destroyed", x.trace())
            return put(t, "locked", min(2, (has(t, "locked") or 0) + 1))
        return t

    def count(n, t, x):
        if not holds(t, ctl):
            ctx.bad(rule, q, "count unlocked", n.where(), "the thread is counted without the control mutex", x.trace())
        return put(t, "count", min(2, (has(t, "count") or 0) + 1))

    def order_key(a, fr):
        o, f2 = init_of(a, fr, g)
        if isinstance(o, dict) and o.get("k") == "mem" and o.get("n") == "second" and "b" in o:     # of what find returned
            b = strip(o["b"])
            if isinstance(b, dict) and b.get("k") == "call" and b.get("op") in ("->", "*") and "obj" in b:
                b = strip(b["obj"])
            o2, f3 = init_of(b, f2, g)
            if isinstance(o2, dict) and o2.get("k") == "call" and "obj" in o2 and o2.get("a") and conflict_field(o2["obj"], f3, g) == CF and o2["q"].split("::")[-1] == "find":
                o, f2 = o2, f3
        if isinstance(o, dict) and o.get("k") == "call" and "obj" in o and conflict_field(o["obj"], f2, g) == CF:
            return ckey(o["a"][0], f2)
        v = strip(a)
        while isinstance(v, dict) and v.get("k") == "ctor" and len(v.get("a", ())) == 1:
            v = strip(v["a"][0])
        # the key read through this very iterator
        c = g.canon(v, fr)
        for n in g.nodes:
            if n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict):
                i = strip(n.e["init"])
                if isinstance(i, dict) and i.get("k") == "call" and i.get("op") == "*" and "obj" in i and g.canon(strip(i["obj"]), n.fr) == c:
                    return g.var_path(n.e, n.fr)
        return "?"

    def edges(n, lab, m, t):
        if lab == "exc":
            return STOP
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            z, zero = None, None
            if isinstance(e, dict) and e.get("k") == "bin" and e["op"] in ("==", "!=", ">", "<="):
                if value(e["y"], n.fr, g, frozenset()) == 0:
                    z, zero = strip(e["x"]), (e["op"] in ("==", "<=")) == pol
            elif isinstance(e, dict):
                z, zero = e, not pol
            if isinstance(z, dict) and zero and z.get("k") == "call" and "obj" in z and conflict_field(z["obj"], n.fr, g) == CC and z.get("a"):
                return t | {("zero", ckey(z["a"][0], n.fr))}
            if isinstance(z, dict) and g.canon(z, n.fr) in own:
                return put(t, "id", 0 if zero else 1)
        # another round
        if n.k == "assign" and isinstance(n.e, dict) and n.e.get("k") == "un" or n.k == "loop":
            ks = {y[1] for y in t if y[0] == "gone"}
            for k in ks:
                if {y[2] for y in t if y[0] == "gone" and y[1] == k} != {CM, CC, CO, CF}:
                    ctx.bad(drop, q, "partly", n.where(), "a dropped mutex keeps an entry in %s" % ", ".join(sorted(y.split("::")[-1] for y in {CM, CC, CO, CF} - {y[2] for y in t if y[0] == "gone" and y[1] == k})))
            return frozenset(y for y in t if y[0] not in ("gone", "zero"))
        return t
    for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$", edges=edges).run([g.entry], frozenset(), frozenset()):
        if k == "exit":
            w = "%s:%d" % (f["file"], f["l"])
            if has(t, "id") == 0:
                if has(t, "locked") or has(t, "count"):
                    ctx.bad(rule, q, "zero", w, "the guard of no key locks something, which nobody unlocks")
            elif ("stale",) in t:
                ctx.bad(drop, q, "stale", w, "the index of the order still refers to the place the key was taken from: the next use of it, or pruning, touches a freed entry")
            elif has(t, "locked") != 1:
                ctx.bad(rule, q, "never", w, "the constructor can return having locked its key's mutex %d times" % (has(t, "locked") or 0))
            for c in (CM, CC, CO, CF):
                if ("in", CM) in t and ("in", c) not in t:
                    ctx.bad(rule, q, "partly " + c, w, "a new key gets no entry in %s" % c.split("::")[-1])
    # release
    q = CG + "release"
    g = ctx.graph(q, of_guard)
    own = {"this._identifier"}
    gr = g

    def events2(n, t, facts, x):
        t = HELD(n, no_numbers(t), g)
        e = n.e
        if n.k in ("assign",) and isinstance(e, dict):
            tgt, step = (e["e"], {"++": 1, "--": -1}.get(e["op"])) if e.get("k") == "un" and e["op"] in ("++", "--") else (e["x"], e["op"]) if is_assign(e) and "x" in e else (None, None)
            z = strip(tgt) if tgt is not None else None
            if not isinstance(z, dict):
                return t
            if z.get("k") == "mem" and z.get("q") == CG + "_identifier":
                v = value(e["y"], n.fr, g, frozenset()) if "y" in e else None
                if has(t, "unlocked") != 1 or has(t, "uncount") != 1:
                    ctx.bad(rule, q, "forgets", n.where(), "the guard forgets its key before it gave it back", x.trace())
                return put(t, "cleared", 1 if v == 0 else None)
            if cell(z, n.fr) is not None:
                k = cell(z, n.fr)
                ctx.ok(rule, "uncounted at %s" % n.where())
                if k != "own" or not (step == -1 or step == "-=" and value(e["y"], n.fr, g, frozenset()) == 1):
                    ctx.bad(rule, q, "count", n.where(), "release changes a count in another way than taking one off its own", x.trace())
                if not holds(t, ctl):
                    ctx.bad(rule, q, "count unlocked", n.where(), "the count changes without the control mutex", x.trace())
                if has(t, "unlocked") != 1 and not holds(t, ctl):
                    ctx.bad(rule, q, "early", n.where(), "the mutex can be destroyed before it is unlocked", x.trace())
                return put(t, "uncount", min(2, (has(t, "uncount") or 0) + 1))
        if n.k in ("call", "icall") and isinstance(e, dict) and "obj" in e:
            c = conflict_field(e["obj"], n.fr, g)
            if c in (CM, CC, CO, CF) and not holds(t, ctl):
                ctx.bad(rule, q, "unlocked " + c, n.where(), "%s is used without the control mutex" % c.split("::")[-1], x.trace())
            nm = n.q.split("::")[-1]
            if nm == "unlock" and "mutex" in n.q and c != ctl and "unique_lock" not in n.q:
                k = points(e["obj"], n.fr)
                ctx.ok(rule, "unlocks %s's at %s" % (k, n.where()))
                if k != "own":
                    ctx.bad(rule, q, "other mutex", n.where(), "release unlocks another key's mutex", x.trace())
                if has(t, "cleared"):
                    ctx.bad(rule, q, "late", n.where(), "release unlocks after it forgot its key", x.trace())
                if has(t, "uncount") and not holds(t, ctl):
                    ctx.bad(rule, q, "early", n.where(), "the mutex can be destroyed before it is unlocked", x.trace())
                return put(t, "unlocked", min(2, (has(t, "unlocked") or 0) + 1))
            if nm in ("erase", "clear", "extract") and c in (CM, CC, CO, CF):
                ctx.bad(drop, q, "release", n.where(), "release drops a mutex", x.trace())
        return t

    def cell(z, fr):
        """The key whose count an expression designates."""
        d = 0
        z = strip(z)
        while isinstance(z, dict) and d < 12:
            d += 1
            if z.get("k") == "call" and "obj" in z and conflict_field(z["obj"], fr, g) == CC and z.get("a"):
                return ckey2(z["a"][0], fr)
            if z.get("k") == "mem" and "b" in z and z.get("n") == "second":
                z = strip(z["b"])
            elif z.get("k") == "call" and z.get("op") in ("->", "*") and "obj" in z:
                z = strip(z["obj"])
            elif z.get("k") == "ctor" and len(z.get("a", ())) == 1:
                z = strip(z["a"][0])
            elif z.get("k") == "var" and z.get("id"):
                kind, v, f2 = g.lookup(z["id"], fr)
                if kind == "env":
                    z, fr = strip(v[0]), v[1]
                    continue
                vs = all_defs(z, fr)
                if len(vs) != 1:
                    return None
                z, fr = vs[0]
            else:
                return None
        return None

    def ckey2(e, fr):
        c = g.canon(strip(e), fr)
        o, f2 = behind(e, fr, g)
        return "own" if c in own or g.canon(o, f2) in own else c

    def edges2(n, lab, m, t):
        if lab == "exc":
            return STOP
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            z, zero = None, None
            if isinstance(e, dict) and e.get("k") == "bin" and e["op"] in ("==", "!=") and value(e["y"], n.fr, g, frozenset()) == 0:
                z, zero = strip(e["x"]), (e["op"] == "==") == pol
            elif isinstance(e, dict):
                z, zero = e, not pol
            if isinstance(z, dict) and g.canon(z, n.fr) == "this._identifier":
                return put(t, "id", 0 if zero else 1)
        return t
    for k, n, t, facts in Cases(ctx, g, "none", None, events2, track="^$", edges=edges2).run([g.entry], frozenset(), frozenset()):
        if k == "exit":
            w = "%s:%d" % (g.root_fn["file"], g.root_fn["l"])
            u, c, z = has(t, "unlocked") or 0, has(t, "uncount") or 0, has(t, "cleared")
            if has(t, "id") == 0:
                if u or c:
                    ctx.bad(rule, q, "zero", w, "release gives back a key the guard does not have")
            elif (u, c, z) != (1, 1, 1):
                ctx.bad(rule, q, "exit", w, "release can return having unlocked %d times, uncounted %d times%s" % (u, c, "" if z else ", and still having its key"))
    # the destructor
    d = next((x for x in p.methods_of("ConflictLockGuard") if x.get("isdtor") and x.get("body")), None)
    if not d:
        ctx.bad(rule, CG + "~ConflictLockGuard", "none", "ConflictLockGuard.h", "a guard that goes out of scope keeps its key locked")
    else:
        gd = ctx.graph(d, lambda h, e, fr: False)
        for k, n, t, facts in Cases(ctx, gd, "none", None, lambda n, t, facts, x: put(t, "released", 1) if n.k in ("call", "icall") and n.q == CG + "release" else t, track="^$").run([gd.entry], frozenset(), frozenset()):
            if k == "exit" and not has(t, "released"):
                ctx.bad(rule, d["q"], "kept", "%s:%d" % (d["file"], d["l"]), "a guard that goes out of scope can keep its key locked")
            ctx.ok(rule, "destructor")
    ctx.need(rule, 6)
    ctx.need(drop, 4)


def retried(ctx):
    """A command that is run again after a conflict runs with the conflict's key locked, one key at a time."""
    rule = "a retried command holds its conflict's key from before it peeks until it has committed"
    q = SRV + "runCommand"
    g = ctx.graph(q, lambda h, e, fr: bool(h.get("lambda")) and h["file"] == "BedrockServer.cpp")
    GT = "ConflictLockGuard"
    count = [0]
    kid = set()     # the variables that hold the key
    for n in g.nodes:
        if n.k == "assign" and isinstance(n.e, dict) and is_assign(n.e) and "x" in n.e and strip(n.e["x"]).get("id") and any(y.get("k") == "call" and y.get("q", "").endswith("::getLastConflictIdentifier") for y in walk(n.e["y"])):
            kid.add(strip(n.e["x"])["id"])

    def events(n, t, facts, x):
        t = no_numbers(t)
        if n.k == "decl" and isinstance(n.e, dict) and GT in n.e.get("t", ""):
            return t
        if n.k in ("call", "icall") and n.q == CG + GT:
            count[0] += 1
            a = n.e["a"][0]
            o, f = origin(a, n.fr, g)
            ctx.ok(rule, "guard of %s" % g.canon(a, n.fr))
            if has(t, "g"):
                ctx.bad(rule, q, "two", n.where(), "a thread waits for a second conflict key while holding one", x.trace())
            if not any(assigned_from(g, a, n.fr, "getLastConflictIdentifier")):
                ctx.bad(rule, q, "key", n.where(), "the key that is locked is not the one of the last conflict", x.trace())
            return put(t, "g", 1)
        if n.k == "dtor" and isinstance(n.e, dict) and GT in str(n.e.get("c") or n.e.get("t") or ""):
            return put(t, "g", None)
        if n.k == "assign" and isinstance(n.e, dict) and is_assign(n.e) and "x" in n.e and strip(n.e["x"]).get("id") in kid:
            if any(y.get("k") == "call" and y.get("q", "").endswith("::getLastConflictIdentifier") for y in walk(n.e["y"])):
                ctx.ok(rule, "key taken at %s" % n.where())
                if has(t, "if") or any(y.get("id") in kid for y in walk(n.e["y"])):
                    ctx.bad(rule, q, "old key", n.where(), "whether the key of the last conflict is taken depends on an earlier conflict's key", x.trace())
        if n.k == "branch" and isinstance(n.e, dict) and has(t, "commit") and any(y.get("id") in kid for y in walk(n.e)):
            t = put(t, "if", 1)
        if n.k in ("call", "icall"):
            if n.q == CG + "release":
                return put(t, "g", None)
            if n.q in (SRV + "_reply", SRV + "runCommand"):
                ctx.ok(rule, "%s at %s" % (n.q.split("::")[-1], n.where()))
                if has(t, "g"):
                    ctx.bad(rule, q, "reply", n.where(), "%s, which can run another command that waits for its key, is called with a key held" % n.q.split("::")[-1], x.trace())
            if n.q.endswith("Core::peekCommand") or n.q.endswith("Core::processCommand"):
                t = put(put(t, "commit", None), "if", None)
            if n.q.endswith("Core::commit"):
                t = put(put(t, "commit", 1), "if", None)
            if re.search(r"Core::(peekCommand|processCommand|commit)$", n.q):
                ctx.ok(rule, "%s at %s" % (n.q.split("::")[-1], n.where()))
                if not has(t, "g"):
                    ctx.bad(rule, q, n.q, n.where(), "%s runs without the key of the command's last conflict" % n.q.split("::")[-1], x.trace())
        return t
    ctx.explore(g, Flow(events))
    ctx.need(rule, 3)


def assigned_from(g, v, fr, fn):
    v = strip(v)
    while isinstance(v, dict) and v.get("k") in ("ctor", "cast") and (v.get("a") or v.get("e")):
        v = strip(v["a"][0] if v.get("a") else v["e"])
    if not isinstance(v, dict) or not v.get("id"):
        return
    for n in g.nodes:
        e = n.e
        if n.k in ("assign",) and isinstance(e, dict) and is_assign(e) and "x" in e and strip(e["x"]).get("id") == v["id"]:
            if any(y.get("k") == "call" and y.get("q", "").endswith("::" + fn) for y in walk(e["y"])):
                yield True


@prop("C28")
def c28(ctx):
    guard_of(ctx)
    retried(ctx)
