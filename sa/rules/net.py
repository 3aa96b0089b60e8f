"""Descriptors and sockets (C57), TLS (C56)."""
from . import prop
from ..lib import *
from ..cases import *
from .server import has, put
from .stuff import bare

OPEN = {"socket": -1, "accept": -1, "accept4": -1, "open": -1, "open64": -1, "openat": -1, "creat": -1, "creat64": -1, "dup": -1, "eventfd": -1, "epoll_create": -1, "epoll_create1": -1, "popen": 0, "fopen": 0, "fopen64": 0, "fdopen": 0, "tmpfile": 0}
CLOSE = {"close": "fd", "S_close": "fd", "fclose": "file", "pclose": "pipe"}
FAMILY = {"popen": "pipe", "fopen": "file", "fopen64": "file", "fdopen": "file", "tmpfile": "file"}
SMART = ("make_unique", "make_shared")
ADD = ("emplace", "emplace_back", "emplace_front", "push_back", "push_front", "push", "insert", "reset")
VALID = 5


def owner_classes(ctx):
    """Classes whose destructor closes: they own the descriptor that their constructors are given."""
    out = set()
    for f in ctx.p.fns.values():
        if f.get("isdtor") and isinstance(f.get("body"), dict):
            for e in fn_exprs(f):
                if e.get("k") == "call" and (e.get("q", "") in CLOSE or e.get("q") == "mbedtls_net_free"):
                    out.add(f["q"].rpartition("::")[0])
    grew = True
    while grew:
        grew = False
        for c in list(ctx.p.records):
            if c not in out and any(ctx.p.derives(c, o) for o in out):
                out.add(c)
                grew = True
    return out


def descriptors(ctx):
    leak = "a descriptor that was opened is closed or handed to an owner on every path"
    twice = "a descriptor is closed once, by the function of its kind"
    use = "no closed descriptor is used"
    stale = "an object does not keep the number of a descriptor it closed"
    p = ctx.p
    owners = owner_classes(ctx)
    ctx.require({"STCPManager::Socket", "STCPManager::Port"} <= owners, "the classes that own descriptors are not recognised: %s" % sorted(owners))

    def owner_ctor(e):
        """Does the expression build an owner?"""
        q = e.get("q", "")
        last = q.split("::")[-1].split("<")[0]
        if e.get("k") == "ctor" or e.get("k") == "new":
            c = q.rpartition("::")[0] or e.get("t", "")
            return any(c == o or c.endswith("::" + o) for o in owners) or any(re.search(r"\b%s\b" % re.escape(o.split("::")[-1]), e.get("t", "")) for o in owners)
        if last in SMART or last in ADD:
            t = e.get("t", "") + " " + (bare(e.get("obj")) or {}).get("t", "") if isinstance(e.get("obj"), dict) else e.get("t", "")
            return any(re.search(r"\b%s\b" % re.escape(o.split("::")[-1]), t) for o in owners)
        return False

    sources = dict(OPEN)
    fns = [f for f in p.fns.values() if isinstance(f.get("body"), dict)]
    calls = {f["id"]: [e for e in fn_exprs(f) if e.get("k") == "call"] for f in fns}
    done = set()

    counted = set()

    def ok(rule, n, text):
        if (rule, n.where()) not in counted:
            counted.add((rule, n.where()))
            ctx.ok(rule, text)

    def local(path):
        return re.fullmatch(r"\w+#\d+", path) is not None

    callers = p.callers()

    def fatal(fid, seen=()):
        """An exception that leaves the function ends the process: no caller can catch it."""
        if fid in seen:
            return True
        f = p.fns.get(fid)
        if f is None or f.get("virtual") or f.get("isctor"):
            return False
        for c in callers.get(fid, ()):
            h = p.fns.get(c)
            if h is not None and not h.get("lambda") and not any(e.get("f") == fid or f.get("lambda") for e in fn_exprs(h) if e.get("k") == "call"):
                continue        # only its address is taken: the entry of a thread or a signal handler
            if h is None or any(s.get("k") == "try" for s in stmts(h["body"])):
                return False
            if not fatal(c, seen + (fid,)):
                return False
        return True

    def analyse(f):
        g = ctx.graph(f, lambda h, e, fr: False)
        cls = f["q"].rpartition("::")[0]
        own_fields = {path for path in () }
        returns_fd = []
        where = {}
        drop = {g.canon(n.e.get("e") or n.e.get("x"), n.fr) for n in g.nodes if n.k == "assign" and isinstance(n.e, dict) and (n.e.get("k") == "un" and n.e["op"] in ("++", "--") or n.e.get("k") == "bin" and n.e["op"] in ("+=", "-="))}
        refs = {q["n"] + "#0" for q in f.get("p", ()) if q["t"].rstrip().endswith(("&", "*"))}

        def bad(rule, k, n, text, x):
            ctx.bad(rule, f["q"], k, n.where(), text, x.trace() if x else None)

        def ids(t, path):
            return [y[2] for y in t if y[0] == "at" and y[1] == path]

        def owned(t, i):
            return ("own", i) in t

        def drop_path(t, path, n, x):
            """The variable is overwritten."""
            for i in ids(t, path):
                t = t - {("at", path, i)}
                if owned(t, i) and not any(y[0] == "at" and y[2] == i for y in t):
                    bad(leak, "lost " + path.split("#")[0], n, "the last copy of the descriptor opened at %s is overwritten while it is open" % where[i], x)
                    t = t - {("own", i)}
            return t

        def leave(t, n, x, how):
            for y in list(t):
                if y[0] == "own":
                    at = [z[1] for z in t if z[0] == "at" and z[2] == y[1]]
                    kept = [a for a in at if not local(a) or a in refs]
                    if kept:
                        if not (f.get("isctor") and how == "throw"):
                            continue
                        # a base class's destructor runs when a derived constructor throws
                        if any(a.startswith("this") and base_field(a) for a in kept):
                            continue
                    bad(leak, "leak %s %s" % (how, (at or ["?"])[0].split("#")[0]), n, "the descriptor opened at %s is still open when %s %s" % (where[y[1]], f["q"], "is left by an exception" if how == "throw" else "ends"), x)
            if not f.get("isdtor") and how == "exit":
                for y in t:
                    if y[0] == "stale" and not local(y[1]):
                        bad(stale, "stale " + re.sub(r"#\d+", "", y[1]), n, "%s still holds the number of a descriptor that was closed" % re.sub(r"#\d+", "", y[1]), x)
            return t

        def base_field(path):
            name = path.split(".")[-1].split(">")[-1]
            for e in fn_exprs(f):
                if e.get("k") == "mem" and e.get("n") == name:
                    return e.get("q", "").rpartition("::")[0] != cls
            return False

        def target(e, fr):
            return g.canon(bare(e), fr)

        def events(n, t, facts, x):
            e = n.e
            t = frozenset(y for y in t if not (y[0] == "env" and (y[1] in drop or y[1].endswith(".size()"))))
            if n.k in ("decl", "assign") and isinstance(e, dict):
                if n.k == "decl":
                    path, y = g.var_path(e, n.fr), e.get("init")
                elif is_assign(e) and "x" in e and e.get("op", "=") == "=":
                    path, y = g.canon(e["x"], n.fr), e["y"]
                else:
                    return t
                t = frozenset(z for z in t if not (z[0] == "stale" and z[1] == path))
                if not isinstance(y, dict):
                    return t
                src = strip(y)
                c = g.canon(src, n.fr)
                got = ids(t, c)
                if not got:
                    o, fr2 = origin(src, n.fr, g)
                    got = ids(t, g.canon(o, fr2)) if isinstance(o, dict) and o is not src else []
                if got and c == path:
                    return t
                t = drop_path(t, path, n, x)
                for i in got:
                    t = t | {("at", path, i)}
                    if c.startswith("call:") or bare(src).get("k") == "call":
                        t = t - {("at", c, i)}
                return t
            if n.k == "return" and n.fr is g.root and isinstance(e, dict) and isinstance(e.get("e"), dict):
                r = bare(e["e"])
                o, fr2 = origin(r, n.fr, g)
                for c in {g.canon(r, n.fr), g.canon(o, fr2) if isinstance(o, dict) else "?"}:
                    for i in ids(t, c):
                        if owned(t, i):
                            returns_fd.append(i)
                            t = t - {("own", i)}
                        elif ("shut", i) in t:
                            bad(use, "returned", n, "a closed descriptor is returned", x)
                for y in walk(e["e"]):
                    t = hand_over(y, n, t)
                return t
            if n.k not in ("call", "icall", "new", "decl") or not isinstance(e, dict):
                return t
            t = hand_over(e, n, t)
            q = e.get("q", "")
            if e.get("k") == "call" and q in sources:
                i = n.i
                where[i] = "%s (%s)" % (n.where(), q)
                ok(leak, n, "%s in %s" % (q, f["q"]))
                c = g.canon(e, n.fr)
                if owned(t, i) and not any(y[0] == "at" and y[2] == i and not local(y[1]) for y in t):
                    bad(leak, "again " + q, n, "another descriptor is opened while the one opened here before is still open", x)
                t = frozenset(y for y in t if not (y[0] in ("own", "shut") and y[1] == i) and not (y[0] == "at" and (y[2] == i or y[1] == c)))
                badv = sources[q]
                return [env_set(t, c, badv), env_set(t, c, VALID) | {("own", i), ("at", c, i)}]
            if e.get("k") == "call" and q in CLOSE and e.get("a"):
                kind = CLOSE[q]
                path = target(e["a"][0], n.fr)
                o, fr2 = origin(bare(e["a"][0]), n.fr, g)
                got = ids(t, path) or (ids(t, g.canon(o, fr2)) if isinstance(o, dict) else [])
                if env_get(t, path) in (0, -1) and not got:      # a copy is closed after the number itself was forgotten
                    return t
                ok(twice, n, "%s(%s) in %s" % (q, re.sub(r"#\d+", "", path), f["q"]))
                if ("stale", path) in t and not got:
                    bad(twice, "twice " + re.sub(r"#\d+", "", path), n, "%s is closed although it was closed before" % re.sub(r"#\d+", "", path), x)
                for i in got:
                    if ("shut", i) in t:
                        bad(twice, "twice " + re.sub(r"#\d+", "", path), n, "the descriptor opened at %s is closed again" % where[i], x)
                    fam = FAMILY.get(where[i].split("(")[1].rstrip(")"), "fd")
                    if fam != kind:
                        bad(twice, "kind " + q, n, "what was opened at %s is closed with %s" % (where[i], q), x)
                    t = (t - {("own", i)}) | {("shut", i)}
                if q == "S_close":
                    t = frozenset(y for y in t if not (y[0] == "at" and y[1] == path))
                    return env_set(t, path, -1)
                if got and not f.get("isdtor") and not local(path) or not got:
                    t = t | {("stale", path)}
                return t
            if e.get("k") == "call" and e.get("a") and not is_log(e):
                for a in e["a"]:
                    path = target(a, n.fr)
                    got = ids(t, path)
                    if any(("shut", i) in t and not owned(t, i) for i in got) or ("stale", path) in t and env_get(t, path) != -1:
                        bad(use, "use %s %s" % (q.split("::")[-1], re.sub(r"#\d+", "", path)), n, "%s is given a descriptor that was closed" % q, x)
            return t

        def is_log(e):
            return e.get("q", "").split("::")[-1] in ("syslog", "format", "operator<<") or e.get("op") == "<<"

        def hand_over(e, n, t):
            if not isinstance(e, dict) or e.get("k") not in ("call", "ctor", "new") or not owner_ctor(e):
                return t
            args = e.get("a", [])
            if e.get("k") == "new" and isinstance(e.get("e"), dict):
                args = args + e["e"].get("a", [])
            for a in args:
                for c in {g.canon(bare(a), n.fr)}:
                    for i in ids(t, c):
                        if owned(t, i) and not c.startswith("this"):
                            t = t - {("own", i)}
            return t

        def edges(n, lab, m, t):
            if n.k == "branch" and lab in ("T", "F"):
                # a number never assigned here says nothing about the one that was closed
                for y in list(t):
                    if y[0] == "stale":
                        v = value(n.e, n.fr, g, frozenset([("env", y[1], -1)]))
                        w = value(n.e, n.fr, g, frozenset([("env", y[1], VALID)]))
                        if v is not None and w is not None and bool(v) != bool(w) and bool(v) == (lab == "T"):
                            return STOP
            return t
        for how, n, t, _ in Cases(ctx, g, "none", None, events, edges=edges).run([g.entry], frozenset(), frozenset(), cap=200000):
            if how == "exit" or how == "throw" and not fatal(f["id"]):
                leave(t, n, None, how)
        return returns_fd

    # sources spread: a function that returns an open descriptor is one
    seen = {}
    while True:
        key = lambda f: frozenset(e["q"] for e in calls[f["id"]] if e.get("q") in sources)
        todo = [f for f in fns if (key(f) or f["q"] != "S_close" and any(e.get("q") in CLOSE for e in calls[f["id"]])) and seen.get(f["id"]) != key(f)]
        if not todo:
            break
        for f in sorted(todo, key=lambda f: f["id"]):
            seen[f["id"]] = key(f)
            if analyse(f):
                file = "FILE" in f.get("ret", "")
                sources.setdefault(f["q"], 0 if file else -1)
                if file:
                    FAMILY.setdefault(f["q"], "file")
    ctx.need(leak, 10)
    ctx.need(twice, 10)


def destructors(ctx):
    """Owners close what they hold, once, when they are destroyed; a moved-from owner holds nothing."""
    rule = "an owner closes its descriptor exactly once when it is destroyed"
    keep = "an owner remembers the descriptor it is given, and one that was moved from forgets it"
    p = ctx.p
    named = lambda c, f: [x for x in p.fns.values() if x["q"] == c and isinstance(x.get("body"), dict) and f(x)]

    def run(f, env, final):
        g = ctx.graph(f, lambda h, e, fr: False)

        def events(n, t, facts, x):
            e = n.e
            if n.k == "delete" or n.k == "call" and n.q in ("mbedtls_net_free", "close", "S_close"):
                a = (e.get("e") if n.k == "delete" else (e.get("a") or [None])[0]) if isinstance(e, dict) else None
                path = g.canon(bare(a), n.fr) if isinstance(a, dict) else "?"
                v = env_get(t, path)
                if v in (-1, 0) and n.q != "close" or v == -1:
                    return t
                t = put(t, "closed " + path, (has(t, "closed " + path) or 0) + 1)
                return env_set(t, path, -1) if n.q == "S_close" else t
            return t
        for how, n, t, _ in Cases(ctx, g, "none", None, events).run([g.entry], frozenset(), frozenset(("env", k, v) for k, v in env.items())):
            if how in ("exit", "throw"):
                final(how, t)
        return g

    def dtor(cls, envs, want):
        """want(env) -> {path: times}"""
        fs = named(cls + "::~" + cls.split("::")[-1].split("<")[0], lambda x: True)
        ctx.require(len(fs) == 1, "the destructor of %s is not recognised" % cls)
        f = fs[0]
        for env in envs:
            def final(how, t, env=env):
                ctx.ok(rule, "%s with %s" % (f["q"], env))
                got = {y[1][7:]: y[2] for y in t if y[0] == "s" and y[1].startswith("closed ")}
                for k, v in want(env).items():
                    if got.get(k, 0) != v:
                        ctx.bad(rule, f["q"], "%s %s" % (k, "leak" if v else "twice"), "%s:%d" % (f["file"], f["l"]), "%s is released %d times instead of %d" % (k, got.get(k, 0), v))
            run(f, env, final)

    dtor("STCPManager::Socket", [{"this.ssl": a, "this.s": b} for a in (0, 1) for b in (VALID, -1)],
         lambda e: {"this.ssl": e["this.ssl"], "this.s": 1 if not e["this.ssl"] and e["this.s"] == VALID else 0})
    dtor("STCPManager::Port", [{"this.s": VALID}, {"this.s": -1}], lambda e: {"this.s": 1 if e["this.s"] == VALID else 0})
    dtor("SSSLState", [{}], lambda e: {"this.net_ctx": 1})
    for c in sorted({f["q"].rpartition("::")[0] for f in p.fns.values() if re.match(r"SSynchronizedQueue<[^>]*>::~", f["q"])}):
        a, b = "this._pipeFD[c:0]", "this._pipeFD[c:1]"
        dtor(c, [{a: x, b: y} for x in (VALID, -1) for y in (VALID, -1)], lambda e: {k: 1 if v == VALID else 0 for k, v in e.items()})

    # constructors
    for cls, field in (("STCPManager::Socket", "s"), ("STCPManager::Port", "s")):
        for f in named(cls + "::" + cls.split("::")[-1], lambda x: x.get("isctor")):
            if not f["p"]:
                continue
            p0, path = f["p"][0], "this." + field
            if p0["t"] == "int":
                def final(how, t, f=f, path=path):
                    ctx.ok(keep, f["id"][:80])
                    if how == "exit" and env_get(t, path) != VALID:
                        ctx.bad(keep, f["q"], "given", "%s:%d" % (f["file"], f["l"]), "%s does not keep the descriptor it is given" % f["q"])
                run(f, {p0["n"] + "#0": VALID}, final)
            elif "&&" in p0["t"]:
                o = p0["n"] + "#0."
                def final(how, t, f=f, o=o, path=path):
                    ctx.ok(keep, f["id"][:80])
                    if how != "exit":
                        return
                    if env_get(t, path) != VALID or env_get(t, "this.ssl") != 1:
                        ctx.bad(keep, f["q"], "moved", "%s:%d" % (f["file"], f["l"]), "a moved socket loses its descriptor")
                    if env_get(t, o + "s") not in (-1, 0) or env_get(t, o + "ssl") != 0:
                        ctx.bad(keep, f["q"], "moved from", "%s:%d" % (f["file"], f["l"]), "a socket that was moved from still holds its descriptor: both destructors close it")
                run(f, {o + "s": VALID, o + "ssl": 1}, final)

    # S_close itself
    for f in named("S_close", lambda x: True):
        a = f["p"][0]["n"] + "#0"
        for v in (VALID, -1):
            def final(how, t, v=v):
                ctx.ok(rule, "S_close(%d)" % v)
                c = has(t, "closed " + a) or 0
                if c != (v == VALID):
                    ctx.bad(rule, "S_close", "closes %d" % v, "%s:%d" % (f["file"], f["l"]), "S_close closes %d times a descriptor that is %s" % (c, "open" if v == VALID else "not there"))
                if env_get(t, a) != -1:
                    ctx.bad(rule, "S_close", "reset", "%s:%d" % (f["file"], f["l"]), "S_close leaves the number of the descriptor it closed behind")
            run(f, {a: v}, final)
    ctx.need(rule, 8)
    ctx.need(keep, 3)


@prop("C57")
def c57(ctx):
    descriptors(ctx)
    destructors(ctx)


# ---- TLS -----------------------------------------------------------------------------------------------------------------------------------------
AUTH = ("mbedtls_ssl_conf_authmode", "mbedtls_ssl_set_hs_authmode", "mbedtls_ssl_conf_verify", "mbedtls_ssl_set_verify")
REQUIRED = 2
PLAIN = ("S_sendconsume", "S_recvappend", "S_send", "S_recv", "send", "recv", "write", "read", "sendto", "recvfrom", "::send", "::recv")


def simple_runs(ctx, f, env, events, inline=None, leaf=None, edges=None):
    g = ctx.graph(f, inline or (lambda h, e, fr: False))
    return g, Cases(ctx, g, "none", leaf, lambda n, t, facts, x: events(g, n, t, x), edges=edges).run([g.entry], frozenset(), frozenset(("env", k, v) for k, v in env.items()))


def tls_state(ctx):
    """The constructor of the TLS state binds it to the host's name, the shared configuration and the socket, or throws."""
    rule = "a TLS connection is set up for the host it was asked for, with the verifying configuration, or not at all"
    fs = [f for f in ctx.p.fns.values() if f["q"] == "SSSLState::SSSLState" and f.get("isctor") and isinstance(f.get("body"), dict) and len(f["p"]) == 2]
    ctx.require(len(fs) == 1, "the constructor of SSSLState is not recognised")
    f = fs[0]
    host, sock = f["p"][0]["n"] + "#0", f["p"][1]["n"] + "#0"
    w = "%s:%d" % (f["file"], f["l"])

    def events(g, n, t, x):
        if n.k != "call" or not isinstance(n.e, dict):
            if n.k == "assign" and isinstance(n.e, dict) and is_assign(n.e) and g.canon(n.e.get("x"), n.fr).endswith("net_ctx.fd"):
                return put(t, "fd", 1 if g.canon(bare(n.e["y"]), n.fr) == sock else 2)
            return t
        a = [g.canon(bare(y), n.fr) for y in n.e.get("a", [])]
        c = g.canon(n.e, n.fr)
        if n.q == "SParseHost":
            ok = a and a[0] == host
            return put(t, "domain", a[1] if ok and len(a) > 1 else None)
        if n.q in ("mbedtls_ssl_set_hostname", "mbedtls_ssl_setup", "mbedtls_net_connect", "mbedtls_net_set_nonblock"):
            k = n.q.split("_")[-1]
            good = 1
            if k == "hostname":
                d = n.e["a"][1]
                while isinstance(d, dict) and (bare(d) or {}).get("k") == "call" and bare(d).get("q", "").split("::")[-1] in ("c_str", "data"):
                    d = bare(d)["obj"]
                if a[0] != "this.ssl" or not has(t, "domain") or g.canon(bare(d), n.fr) != has(t, "domain"):
                    good = 2
            if k == "setup" and (a[0] != "this.ssl" or not a[1].endswith("_conf")):
                good = 2
            return [put(env_set(t, c, 0), k, good), put(env_set(t, c, -1), k, 3)]
        if n.q == "mbedtls_ssl_set_bio":
            return put(t, "bio", 1 if a[0] == "this.ssl" and a[1] == "this.net_ctx" and "mbedtls_net_send" in a[2] and "mbedtls_net_recv" in a[3] else 2)
        return t
    for s in (VALID, -1):
        g, out = simple_runs(ctx, f, {sock: s}, events)
        for how, n, t, _ in out:
            if how != "exit":
                continue
            ctx.ok(rule, "SSSLState is built (socket %d)" % s)
            for k, text in (("hostname", "the name of the host it was asked for is not set: a certificate of any host is accepted"), ("setup", "it is not set up with the shared configuration"), ("bio", "it is not connected to its socket")):
                v = has(t, k)
                if v != 1:
                    ctx.bad(rule, f["q"], k + str(v), w, "a TLS state is built although %s" % (text if v != 3 else "mbedtls_ssl_%s failed" % k))
            if s == VALID and has(t, "fd") != 1:
                ctx.bad(rule, f["q"], "fd", w, "a TLS state is built that does not use the socket it was given")
            for k in ("connect", "nonblock"):
                if has(t, k) == 3:
                    ctx.bad(rule, f["q"], k, w, "a TLS state is built although its connection failed")
    ctx.need(rule, 2)


def tls_config(ctx):
    rule = "the shared configuration requires a certificate signed by the trusted authorities"
    f = ctx.p.fn("SSSLState::initConfig")
    w = "%s:%d" % (f["file"], f["l"])

    def events(g, n, t, x):
        if n.k != "call" or not isinstance(n.e, dict):
            return t
        a = n.e.get("a", [])
        on = bool(a) and g.canon(bare(a[0]), n.fr).endswith("_conf")
        c = g.canon(n.e, n.fr)
        if n.q == "mbedtls_ssl_config_init" and on:
            for k in ("auth", "ca", "rng", "defaults"):
                t = put(t, k, None)
            return t
        if n.q == "mbedtls_ssl_conf_authmode" and on:
            return put(t, "auth", value(a[1], n.fr, g, t) if value(a[1], n.fr, g, t) is not None else -1)
        if n.q == "mbedtls_ssl_config_defaults" and on:
            client = value(a[1], n.fr, g, t) == 0
            return [put(put(env_set(t, c, 0), "defaults", 1 if client else 2), "auth", REQUIRED if client else 0), put(env_set(t, c, -1), "defaults", 3)]
        if n.q == "mbedtls_ssl_conf_ca_chain" and on:
            return put(t, "ca", 1 if g.canon(bare(a[1]), n.fr).endswith("_cacert") else 2)
        if n.q == "mbedtls_ssl_conf_rng" and on:
            return put(t, "rng", 1)
        if n.q == "mbedtls_ctr_drbg_seed":
            return [put(env_set(t, c, 0), "seed", 1), put(env_set(t, c, -1), "seed", 3)]
        if n.q in ("mbedtls_x509_crt_parse_path", "mbedtls_x509_crt_parse_file") and g.canon(bare(a[0]), n.fr).endswith("_cacert"):
            return [put(env_set(t, c, v), "parsed", 1) for v in (0, 1, -1)]
        if n.q in AUTH and n.q != "mbedtls_ssl_conf_authmode":
            return put(t, "auth", -2)
        return t
    g, out = simple_runs(ctx, f, {}, events)
    for how, n, t, _ in out:
        if how != "exit":
            continue
        ctx.ok(rule, "initConfig ends normally")
        for k, want, text in (("auth", REQUIRED, "does not require the peer's certificate to verify"), ("ca", 1, "does not use the loaded authorities"), ("rng", 1, "has no random numbers"), ("seed", 1, "is used although seeding the random numbers failed"), ("defaults", 1, "is used although setting it up failed"), ("parsed", 1, "trusts authorities that were never loaded")):
            if has(t, k) != want:
                ctx.bad(rule, f["q"], k, w, "the shared TLS configuration %s" % text)
    for h in ctx.p.fns.values():
        if isinstance(h.get("body"), dict) and h["q"] != f["q"]:
            for e in fn_exprs(h):
                if e.get("k") == "call" and (e.get("q") in AUTH or e.get("q") in ("mbedtls_ssl_config_defaults", "mbedtls_ssl_conf_ca_chain")):
                    ctx.bad(rule, h["q"], e["q"], "%s:%d" % (h["file"], e.get("l", 0)), "%s changes how certificates are verified" % h["q"])
    main = [h for h in ctx.p.fns.values() if h["q"] == "main" and isinstance(h.get("body"), dict) and any(e.get("k") == "call" and e.get("q") == f["q"] for e in fn_exprs(h))]
    ctx.need(rule, 1)
    return main


def tls_start(ctx, main):
    """The configuration is set up before anything may open a TLS connection."""
    rule = "TLS is configured before the server exists, and stays so until it is gone"
    ctx.require(main, "main does not initialise TLS")
    for f in main:
        if f["file"].startswith("test"):
            continue

        def events(g, n, t, x):
            if n.k == "call" and n.q == "SSSLState::initConfig":
                return put(t, "on", 1)
            if n.k == "call" and n.q == "SSSLState::freeConfig":
                return put(t, "on", None)
            if n.k in ("call", "ctor", "decl", "new") and isinstance(n.e, dict):
                if any(isinstance(y, dict) and (y.get("q", "").startswith("BedrockServer::") or y.get("k") == "call" and "BedrockServer" in y.get("q", "")) for y in ([n.e] if n.k != "decl" else [])):
                    ctx.ok(rule, "%s at %s" % (n.q, n.where()))
                    if not has(t, "on") and "vacuum" not in n.q:
                        ctx.bad(rule, "main", n.q, n.where(), "main calls %s while TLS is not configured" % n.q, x.trace())
            return t
        g = ctx.graph(f, lambda h, e, fr: False)
        ctx.explore(g, Flow(lambda n, t, facts, x: events(g, n, t, x), None, frozenset(), None, "^$"))
    ctx.need(rule, 1)


def tls_sockets(ctx):
    clear = "a socket with TLS never sends or receives its data in the clear"
    made = "an https address is only ever talked to over TLS"
    p = ctx.p
    inl = lambda h, e, fr: False
    for cls in sorted(c for c in p.records if p.derives(c, "STCPManager::Socket")):
        for f in sorted((f for f in p.fns.values() if f["q"].rpartition("::")[0] == cls and isinstance(f.get("body"), dict) and not f.get("isctor") and not f.get("isdtor")), key=lambda f: f["id"]):
            if not any(e.get("k") == "call" and (e.get("q") in PLAIN or e.get("q", "").startswith("SSSLState::")) for e in fn_exprs(f)):
                continue
            proxy = cls != "STCPManager::Socket"

            def events(g, n, t, x):
                if n.k == "new" and isinstance(n.e, dict) and "SSSLState" in n.e.get("t", "") + n.q:
                    ctx.ok(made, "%s starts TLS" % f["q"])
                    if proxy and not ok200[0]:
                        ctx.bad(made, f["q"], "early", n.where(), "TLS starts although the proxy did not answer 200", x.trace())
                    a = n.e.get("a") or (n.e.get("e") or {}).get("a") or []
                    if proxy and (not a or g.canon(bare(a[0]), n.fr) != "this.hostname"):
                        ctx.bad(made, f["q"], "host", n.where(), "TLS is not set up for the host behind the proxy", x.trace())
                if n.k != "call" or not isinstance(n.e, dict):
                    return t
                if n.q.startswith("SSSLState::"):
                    ctx.ok(clear, "%s: %s" % (f["q"], n.q))
                if n.q in PLAIN:
                    ctx.ok(clear, "%s: %s" % (f["q"], n.q))
                    buf = [g.canon(bare(a), n.fr) for a in n.e.get("a", [])]
                    data = any(b in ("this.sendBuffer", "this.recvBuffer") or b.startswith(("this.sendBuffer.", "this.recvBuffer.")) for b in buf)
                    if not proxy and env_get(t, "this.ssl") != 0:
                        ctx.bad(clear, f["q"], n.q, n.where(), "%s is used on a socket with TLS" % n.q, x.trace())
                    if proxy and any(b.startswith("this.sendBuffer") for b in buf):
                        ctx.bad(clear, f["q"], "sendBuffer", n.where(), "the request is sent to the proxy in the clear", x.trace())
                    if proxy and data and env_get(t, "this.proxyNegotiationComplete") != 0:
                        ctx.bad(clear, f["q"], n.q, n.where(), "data is exchanged in the clear after the tunnel was set up", x.trace())
                return t
            ok200 = [0]
            g = ctx.graph(f, inl)

            def answer(e, fr, g):
                """Whether the proxy's answer has the code 200."""
                if e.get("k") not in ("call", "bin") or e.get("k") == "bin" and e["op"] not in ("==", "!="):
                    return None
                c = g.canon(e, fr)
                if "methodLine" not in c or "200" not in c:
                    return None
                if e["k"] == "call":
                    return ok200[0] if e.get("q", "").split("::")[-1] in ("SContains", "contains", "SStartsWith", "SREMatch") else None
                same = (e["op"] == "==") != (".find(" in c or "npos" in c)
                return ok200[0] if same else 1 - ok200[0]
            for ssl, ok200[0] in ((0, 0), (0, 1), (1, 1)):
                env = {"this.ssl": ssl}
                if proxy:
                    env["this.proxyNegotiationComplete"] = ssl
                toks = frozenset(("env", k, v) for k, v in env.items())
                for how, n, t, _ in Cases(ctx, g, "none", answer, lambda n, t, facts, x: events(g, n, t, x)).run([g.entry], frozenset(), toks):
                    if proxy and not ssl and has_new(g) and how in ("exit", "throw") and env_get(t, "this.proxyNegotiationComplete") != 0 and env_get(t, "this.ssl") == 0:
                        ctx.bad(clear, f["q"], "no TLS", "%s:%d" % (f["file"], f["l"]), "the tunnel counts as set up although there is no TLS")
    # what may be in the buffer sent in the clear: the request to the proxy
    for f in sorted(p.fns.values(), key=lambda f: f["id"]):
        if isinstance(f.get("body"), dict) and p.derives(f["q"].rpartition("::")[0], "STCPManager::Socket"):
            for e in fn_exprs(f):
                o = strip(e.get("obj")) if e.get("k") == "call" and isinstance(e.get("obj"), dict) else strip(e.get("x")) if e.get("k") == "bin" and is_assign(e) else None
                if isinstance(o, dict) and o.get("k") == "mem" and o.get("n") == "preSendBuffer" and (e.get("op") in ("=", "+=") or e.get("q", "").split("::")[-1] in ("append", "assign", "operator=", "operator+=")):
                    ctx.ok(clear, "%s fills the request to the proxy" % f["q"])
                    for y in walk(e):
                        if isinstance(y, dict) and (y.get("k") == "var" and y.get("vk") == "param" and f["q"].endswith("::send") or y.get("k") == "mem" and y.get("n") in ("sendBuffer",)):
                            ctx.bad(clear, f["q"], "preSendBuffer", "%s:%d" % (f["file"], e.get("l", 0)), "the caller's data is put into what is sent to the proxy in the clear")
    ctx.need(clear, 5)

    # constructors
    for f in sorted((f for f in p.fns.values() if f["q"] == "STCPManager::Socket::Socket" and isinstance(f.get("body"), dict)), key=lambda f: f["id"]):
        b = [q["n"] for q in f["p"] if q["t"] == "bool"]
        h = [q["n"] for q in f["p"] if "string" in q["t"]]
        if not b or not h:
            continue

        def events2(g, n, t, x):
            if n.k == "new" and "SSSLState" in n.e.get("t", "") + n.q:
                a = n.e.get("a") or (n.e.get("e") or {}).get("a") or []
                good = len(a) == 2 and g.canon(bare(a[0]), n.fr) == h[0] + "#0" and g.canon(bare(a[1]), n.fr) == "this.s"
                t = put(t, "tls", 1 if good else 2)
            return t
        for v in (0, 1):
            g, out = simple_runs(ctx, f, {b[0] + "#0": v}, events2)
            for how, n, t, _ in out:
                if how == "exit":
                    ctx.ok(made, "Socket(host, %s)" % bool(v))
                    if v and has(t, "tls") != 1 or not v and has(t, "tls"):
                        ctx.bad(made, f["q"], "ctor %d" % v, "%s:%d" % (f["file"], f["l"]), "Socket(host, https=%s) %s TLS for that host" % (str(bool(v)).lower(), "is built without" if v else "is built with"))
    for f in sorted((f for f in p.fns.values() if isinstance(f.get("body"), dict) and f["file"].startswith("libstuff/SHTTPSManager")), key=lambda f: f["id"]):
        if not any(e.get("k") in ("new", "ctor") and re.search(r"\b(Socket|SHTTPSProxySocket)\b", e.get("t", "")) for e in fn_exprs(f)):
            continue
        url = [q["n"] + "#0" for q in f["p"] if "string" in q["t"]]

        def leaf(e, fr, g, v=None):
            if e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("SStartsWith", "SIStartsWith", "starts_with"):
                texts = [y for y in strings_in(e)]
                if "https://" in texts:
                    return leaf.v
            return None

        def events3(g, n, t, x):
            if n.k == "call" and n.q.startswith(("STCPManager::Socket::Socket", "SHTTPSProxySocket::SHTTPSProxySocket")):
                ctx.ok(made, "%s at %s" % (n.q, n.where()))
                if n.q.startswith("STCPManager"):
                    a = n.e.get("a", [])
                    v = value(a[1], n.fr, g, t, leaf) if len(a) > 1 else 0
                    if leaf.v and v != 1:
                        ctx.bad(made, f["q"], "plain", n.where(), "a connection in the clear is made for an https address", x.trace())
                    if not leaf.v and v != 0:
                        ctx.bad(made, f["q"], "tls", n.where(), "a TLS connection is made for an address that is not https", x.trace())
            return t
        for v in (0, 1):
            leaf.v = v
            simple_runs(ctx, f, {}, events3, leaf=leaf)
    ctx.need(made, 4)


def has_new(g):
    return any(n.k == "new" and "SSSLState" in n.e.get("t", "") + n.q for n in g.nodes if isinstance(n.e, dict))


@prop("C56")
def c56(ctx):
    tls_state(ctx)
    tls_start(ctx, tls_config(ctx))
    tls_sockets(ctx)
