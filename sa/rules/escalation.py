"""Connections and escalation: socket threads (C29), commands run on another node (C30)."""
from . import prop
from ..lib import *
from ..cases import *
from .server import has, put, strip_str, behind, SRV, CMD
from .queues import no_numbers, fork, deep, txt, init_of

M = "SQLiteClusterMessenger::"
COUNT = SRV + "_outstandingSocketThreads"


def truth(n, lab):
    """(atom, truth) of a branch edge."""
    if n.k != "branch" or lab not in ("T", "F") or not n.x:
        return None, None
    return n.x[0], (lab == "T") == n.x[1]


def below(atom, val):
    """What an edge's atom says about a comparison with a constant: (other side, '<' | '>=' | '>' | '<=' | '==' | '!=', constant)."""
    if not atom or len(atom) < 3:
        return None
    k, a, b = atom[:3]
    for c, o, flip in ((b, a, False), (a, b, True)):
        if isinstance(c, str) and re.match(r"c:-?\d+$", c):
            v = int(c[2:])
            if k == "eq":
                return o, "==" if val else "!=", v
            if k == "lt":
                if not flip:
                    return o, "<" if val else ">=", v
                return o, ">" if val else "<=", v
    return None


def assigned(n):
    e = n.e
    if n.k in ("assign", "call", "icall") and isinstance(e, dict):
        if is_assign(e) and "x" in e:
            return e["x"], e["y"], e["op"]
        if e.get("op") in ("=", "+=") and "obj" in e and e.get("a"):
            return e["obj"], e["a"][0], e["op"]
    return None


def is_member(e, name):
    e = strip(e)
    return isinstance(e, dict) and e.get("k") == "mem" and (e.get("q") or "").endswith(name)


def sending(ctx):
    q = M + "_sendCommandOnSocket"
    rule = "a command that may have reached the other node is never run again"
    g = ctx.graph(q, lambda h, e, fr: h["file"].endswith("SQLiteClusterMessenger.cpp") and h["q"] not in (M + "setErrorResponse", M + "waitForReady"))
    bufs, results = set(), set()
    for n in g.nodes:
        if n.k in ("call", "icall") and n.q == "send":
            for y in walk(n.e["a"][1]):
                if y.get("k") == "var":
                    bufs.add(g.canon(y, n.fr))
    for n in g.nodes:
        if n.k in ("decl",) and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and any(y.get("k") == "call" and y.get("q") == "send" for y in walk(n.e["init"])):
            results.add(g.var_path(n.e, n.fr))
        w = assigned(n)
        if w and any(y.get("k") == "call" and y.get("q") == "send" for y in walk(w[1])):
            results.add(g.canon(w[0], n.fr))
    if not bufs or not results:
        ctx.undecided.append("how the request is sent was not recognised")
        return

    def sized(s):
        return isinstance(s, str) and any(b in s for b in bufs) and "size" in s

    def events(n, t, facts, x):
        t = no_numbers(t)
        if n.k in ("call", "icall"):
            if n.q == "send":
                if has(t, "err"):
                    ctx.bad(rule, q, "send", n.where(), "a command that was already answered is sent", x.trace())
                ctx.ok(rule, "send at %s" % n.where())
                return put(t, "maybe", 1)
            if n.q == M + "setErrorResponse":
                ctx.ok(rule, "fails the command at %s" % n.where())
                if not has(t, "maybe") and not has(t, "caught"):
                    ctx.bad(rule, q, "unsent", n.where(), "a command that cannot have been sent is answered with an error instead of being tried again", x.trace())
                return put(t, "err", 1)
            if n.q == "SParseHTTP":
                return put(t, "answer", "asked")
        if n.k == "catch":
            return put(t, "caught", 1)
        w = assigned(n)
        if w and is_member(w[0], "Command::complete"):
            v = value(w[1], n.fr, g, t)
            if v:
                if has(t, "answer") != "whole":
                    ctx.bad(rule, q, "complete", n.where(), "a command is marked complete before a whole answer was read", x.trace())
                return put(t, "done", 1)
            return put(put(t, "done", None), "err", None)
        if n.k == "return" and n.fr is g.root:
            v = value(n.e["e"], n.fr, g, t) if "e" in n.e else None
            ctx.ok(rule, "returns %s at %s" % ({0: "false", 1: "true"}.get(v, "?"), n.where()))
            if v is None:
                ctx.undecided.append("a result of _sendCommandOnSocket is not known at %s" % n.where())
            elif v and (has(t, "answer") != "whole" or not (has(t, "done") or has(t, "err"))):
                ctx.bad(rule, q, "true", n.where(), "success is reported %s" % ("without a whole answer" if has(t, "answer") != "whole" else "but the command is not complete"), x.trace())
            elif not v and has(t, "maybe") and not has(t, "err"):
                ctx.bad(rule, q, "false", n.where(), "failure is reported for a command that may have been sent whole, and the command is left to be run again", x.trace())
            elif not v and has(t, "done"):
                ctx.bad(rule, q, "done", n.where(), "failure is reported for a command that was answered", x.trace())
        return t

    def edges(n, lab, m, t):
        a, v = truth(n, lab)
        if a is None:
            return t
        c = below(a, v)
        if c and c[0] in results and (c[1:] in (("==", -1), ("<", 0), ("<=", 0), ("<=", -1))):
            return put(t, "maybe", None)
        if c and sized(c[0]) and c[1:] in (("!=", 0), (">", 0)):
            return put(t, "maybe", None)
        if a[0] == "lt" and not c and v and sized(a[2]):
            return put(t, "maybe", None)
        if c and has(t, "answer") == "asked" and not sized(c[0]) and c[0] not in results:
            # the result of SParseHTTP: the size of a whole message, or 0
            if parsed(c[0]):
                return put(t, "answer", "whole" if c[1:] in (("!=", 0), (">", 0), (">=", 1)) else "part")
        return t

    sizes = set()
    for n in g.nodes:
        if n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and any(y.get("k") == "call" and y.get("q") == "SParseHTTP" for y in walk(n.e["init"])):
            sizes.add(g.var_path(n.e, n.fr))
        w = assigned(n)
        if w and any(y.get("k") == "call" and y.get("q") == "SParseHTTP" for y in walk(w[1])):
            sizes.add(g.canon(w[0], n.fr))

    def parsed(s):
        return s in sizes or "SParseHTTP" in s
    for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$", edges=edges).run([g.entry], frozenset(), frozenset()):
        if k == "exc":
            ctx.bad(rule, q, "throws", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "_sendCommandOnSocket can throw%s" % (" after the command was sent" if has(t, "maybe") else ""))
    ctx.need(rule, 6)


def failing(ctx):
    rule = "an error answer is complete and carries nothing of an earlier answer"
    q = M + "setErrorResponse"
    g = ctx.graph(q, lambda h, e, fr: False)

    def events(n, t, facts, x):
        w = assigned(n)
        if w and is_member(w[0], "Command::complete") and value(w[1], n.fr, g, frozenset()):
            return t | {("complete",)}
        if w and is_member(w[0], "::methodLine"):
            return t | {("methodLine",)}
        if n.k in ("call", "icall") and "obj" in n.e and n.q.split("::")[-1] == "clear":
            s = g.canon(n.e["obj"], n.fr) or ""
            return t | {(s.split(".")[-1],)}
        return t
    for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$").run([g.entry], frozenset(), frozenset()):
        if k == "exit":
            for w in ("complete", "methodLine", "nameValueMap", "content"):
                ctx.ok(rule, w)
                if (w,) not in t:
                    ctx.bad(rule, q, w, "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "setErrorResponse leaves %s as it was" % w)
    ctx.need(rule, 4)


def peers(ctx):
    rule = "what runOnPeer reports is what happened to the command"
    pool = "only a connection whose last command was answered is used again"
    p = ctx.p
    for fid in p.byq[M + "runOnPeer"]:
        f = p.fns[fid] if not isinstance(fid, dict) else fid
        toname = "string" in f["p"][1]["t"]
        q = f["q"] + ("(name)" if toname else "(leader)")
        g = ctx.graph(f, lambda h, e, fr: h["file"].endswith("SQLiteClusterMessenger.cpp") and h["q"].split("::")[-1] not in ("setErrorResponse", "_sendCommandOnSocket", "_getSocketForAddress", "commandWillCloseSocket"))

        def events(n, t, facts, x):
            t = frozenset(y for y in t if not (y[0] == "env" and (not isinstance(y[2], int) or y[2] not in (0, 1))))
            if n.k in ("call", "icall"):
                nm = n.q.split("::")[-1]
                if n.q == M + "_sendCommandOnSocket":
                    ctx.ok(rule, "sends at %s" % n.where())
                    if has(t, "sent") is not None:
                        ctx.bad(rule, q, "again", n.where(), "a command is sent a second time after the first attempt %s" % ("succeeded" if has(t, "sent") else "failed, though it may have run"), x.trace())
                    return fork(g, n, t, (0, 1), "sent")
                if n.q == M + "setErrorResponse":
                    if has(t, "sent") == 1:
                        ctx.bad(rule, q, "overwrites", n.where(), "an answered command is failed", x.trace())
                    return put(t, "complete", 1)
                if n.q == M + "commandWillCloseSocket":
                    return fork(g, n, t, (0, 1), "closing")
                if n.q == M + "_getSocketForAddress":
                    o, fr2 = strip(n.e["a"][0]), n.fr
                    return put(put(t, "addr", g.canon(o, fr2)), "stale", None)
                if nm == "returnSocket":
                    ctx.ok(pool, "returned at %s" % n.where())
                    if has(t, "sent") != 1:
                        ctx.bad(pool, q, "failed", n.where(), "a connection goes back to the pool although its command was not answered: the next command would get the late answer", x.trace())
                    elif has(t, "closing") != 0:
                        ctx.bad(pool, q, "closing", n.where(), "a connection goes back to the pool although one side closes it", x.trace())
                    if g.canon(strip(n.e["a"][1]), n.fr) != has(t, "addr") or has(t, "stale"):
                        ctx.bad(pool, q, "address", n.where(), "a connection goes back to the pool under another address than the one it was opened for", x.trace())
            w = assigned(n)
            if w and has(t, "addr") and g.canon(strip(w[0]), n.fr) == has(t, "addr"):
                t = put(t, "stale", 1)
            if w and is_member(w[0], "Command::complete"):
                t = put(t, "complete", value(w[1], n.fr, g, t))
            if w and is_member(w[0], "Command::escalated"):
                ctx.ok(rule, "escalated at %s" % n.where())
                if has(t, "sent") != 1 and value(w[1], n.fr, g, t) != 0:
                    ctx.bad(rule, q, "escalated", n.where(), "a command that was not answered by another node is marked as escalated", x.trace())
            if n.k == "return" and n.fr is g.root:
                v = value(n.e["e"], n.fr, g, t)
                if v is None:
                    v = env_get(t, "ret%d" % g.root.uid)
                ctx.ok(rule, "%s returns %s after %s" % (q, v, {None: "nothing was sent", 0: "a failure", 1: "an answer"}[has(t, "sent")]))
                if v is None:
                    ctx.undecided.append("a result of runOnPeer is not known at %s" % n.where())
                elif v and has(t, "sent") != 1 and not (has(t, "complete") and has(t, "abort")):
                    ctx.bad(rule, q, "true", n.where(), "runOnPeer reports success for a command no other node answered", x.trace())
                elif not v and has(t, "sent") == 1:
                    ctx.bad(rule, q, "false", n.where(), "runOnPeer reports failure for a command another node answered", x.trace())
                elif not v and toname and not has(t, "complete"):
                    ctx.bad(rule, q, "open", n.where(), "runOnPeer fails without answering the command, which nobody tries again", x.trace())
                elif not v and not toname and has(t, "complete") and has(t, "sent") is None:
                    ctx.bad(rule, q, "closed", n.where(), "runOnPeer answers a command with an error although it was not sent and could be tried again", x.trace())
            return t

        def edges(n, lab, m, t):
            if n.k == "branch" and lab in ("T", "F"):
                e, pol = strip(n.e), lab == "T"
                while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                    e, pol = strip(e["e"]), not pol
                if any(is_member(y, "Command::shouldAbort") for y in walk(e)):
                    return put(t, "abort", 1 if pol else None)
            return t
        for k, n, t, facts in Cases(ctx, g, "none", None, events, track=r"\.empty\(\)|size\(\)|^sent|^result|runOnLeader", edges=edges).run([g.entry], frozenset(), frozenset()):
            if k == "exc":
                ctx.bad(rule, q, "throws", "%s:%d" % (f["file"], f["l"]), "runOnPeer can throw")
    ctx.need(rule, 6)
    ctx.need(pool, 1)


def waiting(ctx):
    rule = "waiting for the other node ends with the command's timeout or its client"
    q = M + "waitForReady"
    g = ctx.graph(q, lambda h, e, fr: False)
    polls = {}
    res = set()
    for n in g.nodes:
        if n.k in ("call", "icall") and n.q == "poll":
            polls[n.i] = value(n.e["a"][2], n.fr, g, frozenset())
        if n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and any(y.get("k") == "call" and y.get("q") == "poll" for y in walk(n.e["init"])):
            res.add(g.var_path(n.e, n.fr))

    def is_timeout(e, fr):
        o, f = init_of(e, fr, g)
        return isinstance(o, dict) and any(y.get("k") == "call" and y.get("q", "").endswith("::timeout") for y in walk(o))

    def events(n, t, facts, x):
        t = no_numbers(t)
        if n.i in polls:
            ctx.ok(rule, "poll at %s" % n.where())
            if polls[n.i] is None or not 0 <= polls[n.i] <= 1000:
                ctx.bad(rule, q, "poll", n.where(), "a poll can wait longer than a second without looking at the timeout or the client", x.trace())
            if has(t, "idle") and not has(t, "clock"):
                ctx.bad(rule, q, "forever", n.where(), "a wait goes on although the command's timeout was not looked at", x.trace())
            if not has(t, "client"):
                ctx.bad(rule, q, "client", n.where(), "a wait goes on without looking whether the command's client is still there", x.trace())
            return frozenset({("polled",)})
        if n.k == "return" and n.fr is g.root:
            c = strip(n.e.get("e"))
            nm = (c.get("q") or "").split("::")[-1] if isinstance(c, dict) and c.get("k") == "enum" else None
            ctx.ok(rule, "ends with %s" % nm)
            if nm == "ABORTED" and not has(t, "gone"):
                ctx.bad(rule, q, "ABORTED", n.where(), "a wait is aborted although the client is still there", x.trace())
            if nm == "TIMEOUT" and not has(t, "late"):
                ctx.bad(rule, q, "TIMEOUT", n.where(), "a timeout is reported before the command's timeout", x.trace())
            if nm == "OK" and not has(t, "ready"):
                ctx.bad(rule, q, "OK", n.where(), "a socket is reported ready although poll did not say so", x.trace())
        return t

    def edges(n, lab, m, t):
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            if isinstance(e, dict) and any(is_member(y, "Command::shouldAbort") for y in walk(e)):
                return put(put(t, "client", 1), "gone", 1 if pol else None)
            if isinstance(e, dict) and any(is_member(y, "Command::socket") for y in walk(e)) and not pol:
                return put(t, "client", 1)      # no client at all
            if isinstance(e, dict) and e.get("k") == "bin" and e["op"] in ("<", "<=", ">", ">="):
                x, y = e["x"], e["y"]
                if e["op"] in (">", ">="):
                    x, y = y, x
                xs = is_timeout(x, n.fr)
                ys = isinstance(init_of(y, n.fr, g)[0], dict) and init_of(y, n.fr, g)[0].get("q") == "STimeNow"
                if xs and ys:
                    return put(put(t, "clock", 1), "late", 1 if pol else None)
                if is_timeout(y, n.fr) and isinstance(init_of(x, n.fr, g)[0], dict) and init_of(x, n.fr, g)[0].get("q") == "STimeNow":
                    return put(put(t, "clock", 1), "late", None if pol else 1)
            if is_timeout(e, n.fr) and isinstance(e, dict) and e.get("k") == "var" and not pol:
                return put(t, "clock", 1)       # no timeout at all
            a, v = truth(n, lab)
            c = below(a, v)
            if c and c[1:] in (("==", 0), ("<=", 0)) and isinstance(e, dict) and e.get("k") == "bin" and any(is_timeout(z, n.fr) for z in (e["x"], e["y"])):
                return put(t, "clock", 1)
            if c and c[0] in res:
                if c[1:] == ("==", 0):
                    return put(t, "idle", 1)
                if c[1:] in (("==", 1), (">", 0), (">=", 1)):
                    return put(t, "ready", 1)
        return t
    Cases(ctx, g, "none", None, events, track=r"^result", edges=edges).run([g.entry], frozenset(), frozenset())
    ctx.need(rule, 5)


@prop("C30")
def c30(ctx):
    sending(ctx)
    failing(ctx)
    peers(ctx)
    waiting(ctx)


# ------------------------------------------------------------------------------------------------ socket threads
def counting(e, fr, g):
    """+1 / -1 when an expression changes the number of socket threads."""
    for y in walk(e) if isinstance(e, dict) else ():
        z, s = None, None
        if y.get("k") == "un" and y["op"] in ("++", "--"):
            z, s = y["e"], 1 if y["op"] == "++" else -1
        elif y.get("k") == "call" and "obj" in y:
            nm = y.get("op") or y["q"].split("::")[-1]
            s = {"++": 1, "--": -1, "+=": 1, "-=": -1, "fetch_add": 1, "fetch_sub": -1, "=": 9, "store": 9, "exchange": 9}.get(nm)
            z = y["obj"]
            if s in (1, -1) and nm not in ("++", "--") and (not y.get("a") or value(y["a"][0], fr, g, frozenset()) != 1):
                s = 9
        if s and is_member(z, "BedrockServer::_outstandingSocketThreads"):
            return s, y
    return None, None


def accepting(ctx):
    q = SRV + "_acceptSockets"
    rule = "every accepted connection gets one thread, counted from before it starts"
    limit = "connections are accepted within the limit, control connections always"
    g = ctx.graph(q, lambda h, e, fr: False)

    def events(n, t, facts, x):
        t = no_numbers(t)
        if n.k == "call" and n.q == "S_accept":
            ctx.ok(limit, n.where())
            if has(t, "counted") and not has(t, "started"):
                ctx.bad(rule, q, "counted", n.where(), "a connection is counted although no thread serves it: the server never finishes shutting down", x.trace())
            if not has(t, "room") and not has(t, "control"):
                ctx.bad(limit, q, "limit", n.where(), "a connection is accepted without comparing the number of socket threads with the limit", x.trace())
            return frozenset(y for y in t if y[0] in ("control",))
        s, y = counting(n.e, n.fr, g) if n.k in ("assign", "call", "icall") and (n.k != "call" or n.e.get("op") or n.q.split("::")[-1] in ("fetch_add", "fetch_sub", "store", "exchange")) else (None, None)
        if s:
            ctx.ok(rule, "counts %+d at %s" % (s, n.where()))
            if s != 1:
                if not (s == -1 and has(t, "counted") and not has(t, "started")):
                    ctx.bad(rule, q, "count", n.where(), "_acceptSockets changes the number of socket threads in another way than counting the new one", x.trace())
                return put(t, "counted", None)
            if has(t, "counted"):
                ctx.bad(rule, q, "twice", n.where(), "a connection is counted twice", x.trace())
            return put(t, "counted", 1)
        if n.k == "call" and n.q in ("std::thread::thread", "std::jthread::jthread") and [a for a in n.e.get("a", ()) if strip(a).get("k") in ("lambda",) or "lambda" in str(strip(a).get("t", ""))]:
            ctx.ok(rule, "thread at %s" % n.where())
            if not has(t, "counted"):
                ctx.bad(rule, q, "uncounted", n.where(), "a connection's thread starts before it is counted: the server can shut down around it", x.trace())
            if has(t, "started"):
                ctx.bad(rule, q, "two threads", n.where(), "a connection gets two threads", x.trace())
            return t
        if n.k == "call" and n.q == "std::thread::detach":
            return put(t, "detached", 1)
        return t

    def edges(n, lab, m, t):
        if n.k == "call" and n.q in ("std::thread::thread", "std::jthread::jthread") and lab != "exc" and n.e.get("a") and not strip(n.e["a"][0]).get("k") == "var" and has(t, "counted"):
            return put(t, "started", 1)
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            if isinstance(e, dict) and e.get("k") == "bin" and e["op"] in ("<", "<=", ">", ">="):
                ms = [next((y.get("q") for y in walk(z) if y.get("k") == "mem" and y.get("q") in (COUNT, SRV + "_maxSocketThreads")), None) for z in (e["x"], e["y"])]
                if ms == [COUNT, SRV + "_maxSocketThreads"]:
                    return put(t, "room", 1 if (e["op"] in ("<", "<=")) == pol else None)
                if ms == [SRV + "_maxSocketThreads", COUNT]:
                    return put(t, "room", 1 if (e["op"] in (">", ">=")) == pol else None)
            if isinstance(e, dict) and e.get("op") in ("==", "!=") and any(is_member(z, "::_controlPort") for z in ([e["obj"]] if "obj" in e else []) + e.get("a", [])):
                return put(t, "control", 1 if (e["op"] == "==") == pol else None)
        return t
    for k, n, t, facts in Cases(ctx, g, "none", None, events, track="^$", edges=edges).run([g.entry], frozenset(), frozenset()):
        if k == "exit" and has(t, "counted") and not has(t, "started"):
            ctx.bad(rule, q, "left counted", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "_acceptSockets can return with a connection counted that has no thread: the server never finishes shutting down")
    ls = [h for h in ctx.p.fns.values() if h.get("lambda") and h["file"] == "BedrockServer.cpp" and ctx.p.outer(h)["q"] == q]
    n_ = 0
    for h in ls:
        gl = ctx.graph(h, lambda h2, e, fr: False)
        n_ += sum(1 for n in gl.nodes if n.k == "call" and n.q == SRV + "handleSocket")
    if n_ != 1:
        ctx.undecided.append("%d calls of handleSocket in the threads of _acceptSockets" % n_)
    ctx.need(rule, 2)
    ctx.need(limit, 1)


def serving(ctx):
    q = SRV + "handleSocket"
    rule = "every connection thread is uncounted once, whatever happens in it"
    own = "a connection thread does not outlive or abandon the command it runs"
    pair = "new connections are blocked and unblocked in pairs"
    g = ctx.graph(q, lambda h, e, fr: False)
    decs = set()
    for n in g.nodes:
        if n.k in ("assign", "call", "icall", "decl"):
            e = n.e.get("init") if n.k == "decl" and isinstance(n.e, dict) else n.e
            s, y = counting(e, n.fr, g)
            if s and (n.k != "decl") and isinstance(n.e, dict) and (n.e is y or strip(n.e) is y):
                decs.add(n.i)
                ctx.ok(rule, "counts %+d at %s" % (s, n.where()))
                if s != -1:
                    ctx.bad(rule, q, "count", n.where(), "handleSocket changes the number of socket threads in another way than taking itself off")
    for n in g.nodes:
        if n.k != "log" and isinstance(n.e, dict):
            for y in walk(n.e.get("init") if n.k == "decl" else n.e):
                if y.get("k") == "call" and "obj" in y and is_member(y["obj"], "BedrockServer::_outstandingSocketThreads") and (y["q"].endswith("::load") or "operator " in y["q"] and y.get("op") not in ("--", "++", "-=", "+=", "=")):
                    ctx.bad(pair, q, "reread", n.where(), "the number of remaining threads is read again after the decrement: two threads can both skip the value that unblocks new connections")
    ctx.ok(pair, "decision on the decrement's result")

    def events(n, t, facts, x):
        if n.i in decs:
            return put(t, "dec", min(2, (has(t, "dec") or 0) + 1))
        if n.k == "call":
            if n.q == "std::thread::thread" and n.e.get("a") and "thread" not in str(strip(n.e["a"][0]).get("t", "")).replace("std::", "")[:7]:
                return t
            if n.q in ("std::thread::join",):
                ctx.ok(own, "joined at %s" % n.where())
                return put(t, "thread", None)
            if n.q == "std::thread::detach":
                ctx.bad(own, q, "detach", n.where(), "the command's thread is let go although it uses this thread's variables", x.trace())
                return put(t, "thread", None)
        if n.k == "dtor" and isinstance(n.e, dict) and has(t, "thread") and re.search(r"(^|::)(thread|mutex|condition_variable|atomic)\b", str(n.e.get("c") or n.e.get("t") or "")):
            ctx.bad(own, q, "dtor", n.where(), "%s goes away while the command's thread still uses it" % n.e.get("n", "a local"), x.trace())
            return put(t, "thread", None)
        return t

    def edges(n, lab, m, t):
        if n.k == "call" and n.q == "std::thread::thread" and lab != "exc" and n.e.get("a"):
            a = strip(n.e["a"][0])
            if a.get("k") == "lambda" or a.get("k") == "ctor" and any(y.get("k") == "lambda" for y in walk(a)):
                return put(t, "thread", 1)
        return t

    def ends_events(n, t, facts, x):
        t = events(n, t, facts, x)
        if n is g.exit:
            ctx.ok(rule, "leaves after %d" % (has(t, "dec") or 0))
            if has(t, "dec") != 1:
                ctx.bad(rule, q, "exit %s" % has(t, "dec"), "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "a connection thread can end having uncounted itself %d times" % (has(t, "dec") or 0), x.trace())
            if has(t, "thread"):
                ctx.bad(own, q, "exit", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "a connection thread can end before its command's thread", x.trace())
        if n is g.excexit:
            ctx.bad(rule, q, "throws", "%s:%d" % (g.root_fn["file"], g.root_fn["l"]), "an exception can leave a connection's thread", x.trace())
        return t
    ctx.explore(g, Flow(ends_events, edges=lambda n, lab, m, a, facts, x: edges(n, lab, m, a)))
    ctx.need(rule, 2)
    ctx.need(own, 1)


def blocking(ctx):
    p = ctx.p
    pair = "new connections are blocked and unblocked in pairs"
    FLAG = SRV + "_shouldBlockNewSocketThreads"
    consts = {}
    for q in (SRV + "_acceptSockets", SRV + "handleSocket"):
        g = ctx.graph(q, lambda h, e, fr: False)

        def events(n, t, facts, x):
            t = HELD(n, no_numbers(t), g)
            w = assigned(n)
            if w and is_member(w[0], "::_shouldBlockNewSocketThreads"):
                v = value(w[1], n.fr, g, frozenset())
                ctx.ok(pair, "%s at %s" % ({0: "unblocks", 1: "blocks"}.get(v, "?"), n.where()))
                if not holds(t, SRV + "_newSocketThreadBlockedMutex"):
                    ctx.bad(pair, q, "lock", n.where(), "the flag changes without its mutex", x.trace())
                if has(t, "port") is not None and has(t, "port") == v:
                    return put(put(t, "flag", None), "port", None)
                return put(t, "flag", v)
            if n.k == "call" and n.q in (SRV + "blockCommandPort", SRV + "unblockCommandPort") and txt(n.e["a"][0]) == "NOT_ENOUGH_THREADS":
                v = 1 if n.q.endswith("::blockCommandPort") else 0
                if not holds(t, SRV + "_newSocketThreadBlockedMutex"):
                    ctx.bad(pair, q, "port lock", n.where(), "the command port is %sblocked outside the mutex that keeps it in step with the flag" % ("" if v else "un"), x.trace())
                if has(t, "flag") == v:
                    return put(t, "flag", None)
                return put(t, "port", v)
            if holds(t, SRV + "_newSocketThreadBlockedMutex"):
                return t
            if has(t, "flag") is not None or has(t, "port") is not None:
                ctx.bad(pair, q, "half", n.where(), "the mutex is given up with the flag and the command port out of step", x.trace())
                t = put(put(t, "flag", None), "port", None)
            return t
        mine = {g.var_path(n.e, n.fr) for n in g.nodes if n.k == "decl" and isinstance(n.e, dict) and isinstance(n.e.get("init"), dict) and counting(n.e["init"], n.fr, g)[0]}
        for n in g.nodes:
            if n.k == "branch" and n.x:
                for v in (True, False):
                    c = below(n.x[0], v)
                    if c and q.endswith("handleSocket") and (c[0] in mine or "_outstandingSocketThreads" in str(c[0])) and c[1] in ("==", "<=", "<") and reaches_call(g, n, v, SRV + "unblockCommandPort"):
                        consts.setdefault("unblock", set()).add(c[2] - (1 if c[1] == "<" else 0))
                    if c and q.endswith("_acceptSockets") and c[1] in ("<", "<=") and "_outstandingSocketThreads" in str(c[0]):
                        consts.setdefault("block", set()).add(c[2] + (1 if c[1] == "<=" else 0))
        Cases(ctx, g, "none", None, events, track="^$").run([g.entry], frozenset(), frozenset())
    ctx.ok(pair, "thresholds %s" % {k: sorted(v) for k, v in consts.items()})
    if not consts.get("unblock"):
        ctx.bad(pair, SRV + "handleSocket", "never", "BedrockServer.cpp", "nothing unblocks new connections when threads end")
    elif consts.get("block") and max(consts["unblock"]) >= min(consts["block"]):
        ctx.bad(pair, SRV + "handleSocket", "threshold", "BedrockServer.cpp", "new connections can be blocked when fewer threads are left than the number that unblocks them")
    ctx.need(pair, 3)


def reaches_call(g, n, v, q):
    """Whether the branch edge taken when the atom is v leads to a call of q before joining."""
    seen = set()
    work = [m for m, lab in n.succ if lab in ("T", "F") and (lab == "T") == (v == n.x[1])]
    d = 0
    while work and d < 60:
        d += 1
        m = work.pop()
        if m.i in seen:
            continue
        seen.add(m.i)
        if m.k == "call" and m.q == q:
            return True
        work += [k for k, lab in m.succ if lab != "exc"]
    return False


@prop("C29")
def c29(ctx):
    accepting(ctx)
    serving(ctx)
    blocking(ctx)
