"""libstuff: running SQL (C53)."""
from . import prop
from ..lib import *
from ..cases import *
from .server import has, put
from .queues import no_numbers

ROW, DONE, BUSY, SNAPSHOT, NOMEM = 100, 101, 5, 517, 7
BINDS = {"null": "Null", "int64": "Int64", "int": None, "double": "Double", "text": "Text", "text64": "Text", "blob": "Blob", "blob64": "Blob"}
FIELDS = {"Int64": "intValue", "Double": "doubleValue", "Text": "stringValue", "Blob": "stringValue"}
COLUMNS = {1: ("int64",), 2: ("double",), 3: ("text", "bytes"), 4: ("blob", "bytes"), 5: ()}
KINDS = {1: "an integer", 2: "a float", 3: "a text", 4: "a blob", 5: "a null"}


def bare(e):
    """The expression below casts and &."""
    e = strip(e)
    while isinstance(e, dict) and (e.get("k") == "un" and e.get("op") in ("&", "*") or e.get("k") == "cast"):
        e = strip(e["e"])
    return e


def arg(n, i, g):
    a = n.e.get("a", [])
    return g.canon(bare(a[i]), n.fr) if i < len(a) else "?"


def calls_sqlite(h):
    return isinstance(h.get("body"), dict) and any(y.get("k") == "call" and y.get("q", "").startswith("sqlite3_") for y in fn_exprs(h))


def squery_main(ctx):
    """The SQuery that prepares statements."""
    out = []
    for f in ctx.p.fns.values():
        if f["q"] == "SQuery" and isinstance(f.get("body"), dict):
            g = ctx.graph(f, lambda h, e, fr: h["q"] != "SQuery" and h["file"].endswith("libstuff.cpp") and calls_sqlite(h))
            if any(n.k == "call" and n.q.startswith("sqlite3_prepare") for n in g.nodes):
                out.append((f, g))
    ctx.require(len(out) == 1, "the SQuery that prepares statements is not recognised (%d candidates)" % len(out))
    return out[0]


def type_case(lab):
    m = re.match(r"c:(.*)$", str(lab[1])) if isinstance(lab, tuple) and lab[0] == "case" else None
    return m.group(1) if m else None


def squery(ctx):
    run = "a statement runs only after everything before it succeeded, and to its end"
    res = "success is reported exactly when every statement ran to its end, failure otherwise"
    fin = "every prepared statement is released exactly once"
    bind = "each parameter is bound to the index of its own name with the function and the field of its type"
    val = "each column is read with the function of its type, at its own index, into the row"
    rep = "the statements given to the caller for replication are the expansion of all that ran"
    f, g = squery_main(ctx)
    q = "SQuery"
    ps = {p["t"]: p["n"] + "#0" for p in f["p"]}
    one = lambda pat: next((v for k, v in ps.items() if re.search(pat, k)), None)
    db, sql, result, params, expanded = one(r"sqlite3 \*"), f["p"][1]["n"] + "#0", one(r"SQResult &"), one(r"map<.*SQliteParameter"), one(r"basic_string.*\*$")
    ctx.require(all((db, sql, result, params, expanded)), "the parameters of SQuery are not recognised")

    def start_of(e):
        e = strip(e)
        return isinstance(e, dict) and e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("c_str", "data") and "obj" in e and g.canon(e["obj"], g.root) == sql

    def bad(rule, k, n, text, x):
        ctx.bad(rule, q, k, n.where(), text, x.trace())

    heads = [n for n in g.nodes if n.k == "rangehead" and g.canon(n.e.get("range"), n.fr) == params]

    # counters that no condition compares with a constant decide nothing
    counters, bounded, read = set(), set(), set()
    for n in g.nodes:
        e = n.e
        if not isinstance(e, dict):
            continue
        if n.k == "assign" and e.get("k") == "un" and e["op"] in ("++", "--"):
            counters.add(g.canon(e["e"], n.fr))
        if n.k == "assign" and e.get("k") == "bin" and e["op"] in ("+=", "-="):
            counters.add(g.canon(e["x"], n.fr))
        if n.k in ("branch", "switch", "return"):
            read |= {g.canon(y, n.fr) for y in walk(e.get("c", e) if n.k == "switch" else e.get("e", e) if n.k == "return" else e) if isinstance(y, dict) and y.get("k") == "var"}
        if n.k == "branch" and e.get("k") == "bin" and value(e["y"], n.fr, g, frozenset()) is not None:
            bounded.add(g.canon(e["x"], n.fr))
    drop = counters - bounded

    # values that reach a condition or the result
    grew = True
    while grew:
        grew = False
        for n in g.nodes:
            e = n.e
            if n.k in ("assign", "decl") and isinstance(e, dict):
                to = g.var_path(e, n.fr) if n.k == "decl" else g.canon(e["x"], n.fr) if is_assign(e) and "x" in e else None
                src = e.get("init") if n.k == "decl" else e.get("y")
                if to in read and isinstance(src, dict):
                    new = {g.canon(y, n.fr) for y in walk(src) if isinstance(y, dict) and y.get("k") == "var"} - read
                    if new:
                        read |= new
                        grew = True
    read -= drop

    def lean(t, n):
        past = n.k in ("assign", "decl", "loop")
        t = frozenset(("env", expanded, 1) if y[0] == "env" and y[1] == expanded and y[2] else y for y in t)
        return frozenset(y for y in t if y[0] != "env" or y[1] in read or y[1] == expanded or y[1].startswith("ret") or y[1] == params + ".size()" or y[1].startswith("sqlite3_") and not past)

    def restart(n, t, x):
        if has(t, "fail") is not None and has(t, "fail") != BUSY:
            bad(run, "retry", n, "the query is tried again after a failure other than 'busy'", x)
        if has(t, "fail") is None and has(t, "ran"):
            bad(run, "again", n, "the query starts over although nothing failed", x)
        if has(t, "fail") is not None and has(t, "snap"):
            bad(run, "retry-snapshot", n, "the query is tried again after a commit conflict, inside the transaction that conflicted", x)
        if has(t, "dirty"):
            bad(res, "dirty", n, "the rows of a failed try stay in the result of the next one", x)
        if has(t, "xdirty"):
            bad(rep, "dirty", n, "the replicated text of a failed try stays in front of that of the next one", x)
        for k in ("fail", "ran", "snap"):
            t = put(t, k, None)
        return put(t, "pos", "start")

    def closed(n, t, x, what):
        if has(t, "open"):
            bad(fin, "leak", n, "%s while the prepared statement is not released" % what, x)
        return t

    def done(n, t, x, what):
        """Leaving a statement behind: it ran to its end, or failed."""
        if has(t, "fail") is None:
            if has(t, "row"):
                bad(run, "row", n, "%s drops the row just read" % what, x)
            if has(t, "stage") in ("bound", "rows") and has(t, "open"):
                bad(run, "early", n, "%s before the statement ran to its end" % what, x)
        return t

    def events(n, t, facts, x):
        e = n.e
        if n.k in ("decl", "assign") and isinstance(e, dict):
            i = e.get("init") if n.k == "decl" else e.get("y") if is_assign(e) else None
            if i is not None and start_of(i):
                ctx.ok(run, "starts at the beginning of the text at %s" % n.where())
                return restart(n, put(t, "text", g.var_path(e, n.fr) if n.k == "decl" else g.canon(e["x"], n.fr)), x)
            if n.k == "assign" and is_assign(e) and has(t, "text") and g.canon(e.get("x"), n.fr) == has(t, "text"):
                bad(run, "text", n, "the position in the text is moved by hand", x)
        if n.k not in ("call", "icall") or not isinstance(e, dict):
            if n.k == "return" and n.fr is g.root:
                t = done(n, t, x, "returning")
                closed(n, t, x, "SQuery returns")
                v = env_get(t, "ret%d" % g.root.uid)
                if v is None:
                    v = value(e["e"], n.fr, g, t)
                fail = has(t, "fail")
                ctx.ok(res, "%s -> %s" % ("all ran" if fail is None else "failure %s" % fail, v))
                if fail is None and v != 0:
                    bad(res, "failure", n, "SQuery reports %s although every statement ran to its end" % ("an unknown result" if v is None else "failure"), x)
                if fail is not None and (v is None or v == 0):
                    bad(res, "success", n, "SQuery can report success although a statement failed with %s" % fail, x)
                if fail is not None and has(t, "snap") and v != SNAPSHOT:
                    bad(res, "conflict", n, "a commit conflict is reported as %s" % v, x)
                if fail is None and has(t, "unexpanded"):
                    bad(rep, "missing", n, "a statement that ran is missing from the text given for replication", x)
            return t
        name = n.q.split("::")[-1]
        if n.q.startswith("sqlite3_prepare"):
            ctx.ok(fin, "prepared at %s" % n.where())
            if arg(n, 0, g) != db:
                bad(run, "db", n, "a statement is prepared on another database handle", x)
            s = arg(n, len(n.e["a"]) - 2, g)
            if not s or arg(n, 1, g) != has(t, "text") or arg(n, len(n.e["a"]) - 1, g) != has(t, "text"):
                bad(run, "tail", n, "the statement prepared is not the next one of the text", x)
            t = closed(n, t, x, "the next statement is prepared")
            t = done(n, t, x, "going on")
            if has(t, "fail") is not None:
                bad(run, "after", n, "a statement runs although one before it failed", x)
            if has(t, "unexpanded"):
                bad(rep, "missing", n, "a statement that ran is missing from the text given for replication", x)
            t = put(put(put(t, "row", None), "stmt", s), "pos", "mid")
            t = put(put(t, "bindings", None), "stage", None)
            c, out = g.canon(n.e, n.fr), []
            for rc, st in ((0, 1), (0, 0), (1, 0), (BUSY, 0)):
                u = env_set(env_set(t, c, rc), s or "?", st)
                u = put(u, "open", 1 if st else None)
                u = put(u, "fail", rc or has(t, "fail"))
                u = put(u, "stage", "ready" if st else None)
                out.append(put(u, "ran", 1))
            return out
        if n.q == "sqlite3_finalize":
            ctx.ok(fin, "released at %s" % n.where())
            if env_get(t, arg(n, 0, g)) == 0:
                return t
            if arg(n, 0, g) != has(t, "stmt") or not has(t, "open"):
                bad(fin, "twice", n, "a statement is released that is not open", x)
            t = done(n, t, x, "the statement is released")
            for k in ("bindings", "type", "index", "todo", "col", "at"):
                t = put(t, k, None)
            return put(put(put(t, "open", None), "stage", None), "row", None)
        if n.q in ("sqlite3_step", "sqlite3_format_query_result", "sqlite3_expanded_sql", "sqlite3_bind_parameter_index", "sqlite3_reset") or re.match(r"sqlite3_(bind|column)_", n.q):
            if arg(n, 0, g) != has(t, "stmt") or not has(t, "open"):
                bad(fin, "closed " + n.q, n, "%s is called on something else than the open statement" % n.q, x)
        c = g.canon(n.e, n.fr)
        if n.q in ("sqlite3_step", "sqlite3_format_query_result"):
            ctx.ok(run, "runs at %s" % n.where())
            if has(t, "fail") is not None:
                bad(run, "failed", n, "a statement runs although binding its parameters, or an earlier step, failed", x)
            if env_get(t, params + ".size()") == 1 and has(t, "bindings") != "all":
                bad(bind, "before", n, "the statement runs before all parameters are bound", x)
            if has(t, "row"):
                bad(run, "row", n, "a row is dropped", x)
            if has(t, "stage") == "end":
                bad(run, "end", n, "a statement is run again after its end", x)
            if n.q == "sqlite3_step":
                return [put(put(put(env_set(t, c, v), "row", 1 if v == ROW else None), "fail", None if v in (ROW, DONE) else v), "stage", "rows" if v == ROW else "end") |
                        ({("s", "unexpanded", 1)} if v == DONE and env_get(t, expanded) == 1 else frozenset()) for v in (ROW, DONE, BUSY, 1)]
            return [put(put(env_set(t, c, v), "fail", v or None), "stage", "end") for v in (0, 1)]
        if n.q == "sqlite3_expanded_sql":
            return [env_set(t, c, 1), put(env_set(t, c, 0), "fail", has(t, "fail") or NOMEM)]
        if n.q == "sqlite3_extended_errcode":
            fail = has(t, "fail")
            vs = [0] if fail is None else [BUSY, SNAPSHOT] if fail == BUSY else [fail]
            return [put(env_set(t, c, v), "snap", 1 if v == SNAPSHOT else None) for v in vs]
        if n.q == "sqlite3_bind_parameter_index":
            k = name_of(n.e["a"][1], n.fr)
            if k is None:
                bad(bind, "name", n, "the index is not that of the parameter's own name", x)
            return [put(env_set(t, c, v), "index", v) for v in (0, 1)]
        m = re.match(r"sqlite3_bind_(\w+)$", n.q)
        if m and m.group(1) != "parameter_index":
            ty = BINDS.get(m.group(1))
            ctx.ok(bind, "%s at %s" % (n.q, n.where()))
            want = has(t, "type")
            if want is None or ty != want:
                bad(bind, "type " + n.q, n, "%s binds a parameter of type %s" % (n.q, want or "unknown"), x)
            if not has(t, "index") or not index_of(n.e["a"][1], n.fr):
                bad(bind, "index " + n.q, n, "%s does not bind at the index of the parameter's name" % n.q, x)
            if ty in FIELDS:
                e2 = bare(n.e["a"][2])
                o = e2["obj"] if e2.get("k") == "call" and "obj" in e2 else e2
                if not element(o, n.fr, FIELDS[ty]):
                    bad(bind, "field " + n.q, n, "%s binds something else than the parameter's %s" % (n.q, FIELDS[ty]), x)
                if ty in ("Text", "Blob"):
                    sized(n, ty, x)
            return [put(put(env_set(t, c, v), "fail", v or has(t, "fail")), "todo", None) for v in (0, 1)]
        m = re.match(r"sqlite3_column_(\w+)$", n.q)
        if m and m.group(1) not in ("count", "name", "type", "decltype"):
            ctx.ok(val, "%s at %s" % (n.q, n.where()))
            col = has(t, "col")
            if col is None or m.group(1) not in COLUMNS.get(col, ()):
                bad(val, "type " + n.q, n, "%s reads %s" % (n.q, KINDS.get(col, "a column of unknown type")), x)
            if not has(t, "row"):
                bad(val, "row " + n.q, n, "a column is read without a row", x)
            if has(t, "at") is not None and arg(n, 1, g) != has(t, "at"):
                bad(val, "index " + n.q, n, "the type is that of another column than the value", x)
            if col == 4:
                t = put(t, "blob", "all" if m.group(1) == "bytes" or has(t, "blob") == "all" else "start")
            return t
        if n.q == "sqlite3_column_type" or "obj" in e and name in ("emplace_back", "push_back") and g.canon(e["obj"], n.fr) == result:
            if has(t, "blob") == "start":
                bad(val, "blob", n, "a blob is read without its size", x)
            t = put(t, "blob", None)
            if n.q == "sqlite3_column_type":
                return put(t, "at", arg(n, 1, g))
        if n.q == "SQResultRow::get" or name in ("operator[]", "at") and "obj" in e and "SQResultRow" in str(strip(e["obj"]).get("t", "")):
            if has(t, "at") is not None and e.get("a") and g.canon(e["a"][0], n.fr) != has(t, "at"):
                bad(val, "cell", n, "a value is written to the cell of another column", x)
        if "obj" in e:
            o = g.canon(e["obj"], n.fr)
            if o == result and name in ("emplace_back", "push_back"):
                ctx.ok(val, "row added at %s" % n.where())
                if not has(t, "row"):
                    bad(val, "extra", n, "a row is added that was not read", x)
                return put(put(put(put(t, "row", None), "dirty", 1), "col", None), "at", None)
            if o == result and name == "clear":
                if has(t, "ran") and has(t, "fail") is None:
                    bad(res, "lost", n, "the rows of the statements that ran are dropped", x)
                return put(t, "dirty", None)
            if o.lstrip("*") == expanded and name == "clear":
                return put(t, "xdirty", None)
            if o.lstrip("*") == expanded and name in ("operator+=", "append"):
                ctx.ok(rep, "appended at %s" % n.where())
                a = bare(e["a"][0])
                if not isinstance(a, dict) or a.get("k") != "var" or not from_expansion(a, n.fr):
                    bad(rep, "other", n, "something else than sqlite's expansion of the statement is given for replication", x)
                if has(t, "fail") is not None:
                    bad(rep, "failed", n, "a statement that failed is given for replication", x)
                return put(put(t, "unexpanded", None), "xdirty", 1)
            if o.lstrip("*") == expanded and name == "operator=":
                bad(rep, "assign", n, "the text given for replication is overwritten by the last statement", x)
        return t

    def from_expansion(a, fr):
        return any(isinstance(v, dict) and v.get("k") == "call" and v.get("q") == "sqlite3_expanded_sql" for v in assigned(a, fr))

    def assigned(a, fr):
        kind, v, f2 = g.lookup(a.get("id"), fr)
        if kind == "env":
            yield strip(v[0])
            return
        if v and v.get("decl") and isinstance(v["decl"].get("init"), dict):
            yield strip(v["decl"]["init"])
        for m in g.nodes:
            if m.k == "assign" and isinstance(m.e, dict) and is_assign(m.e) and isinstance(strip(m.e.get("x")), dict) and strip(m.e["x"]).get("id") == a.get("id"):
                yield strip(m.e["y"])

    def element(e, fr, fld):
        """Field fld of the loop's parameter value."""
        e = bare(e)
        if not isinstance(e, dict) or e.get("k") != "mem" or e.get("n") != fld:
            return False
        return binding(e["b"], fr) == "value"

    def binding(e, fr):
        """'name' / 'value' when e is the key / the value of the element of the loop over the parameters."""
        c = g.canon(bare(e), fr)
        for h in heads:
            v = h.e.get("var") or {}
            bs = v.get("binds") or []
            b = bare(e)
            if isinstance(b, dict) and b.get("k") == "mem" and b.get("n") in ("first", "second"):
                b2 = g.canon(bare(b["b"]), fr)
                if v.get("n") and b2.split("#")[0] == v["n"]:
                    return {"first": "name", "second": "value"}[b["n"]]
            for i, x in enumerate(bs):
                if isinstance(b, dict) and b.get("k") == "var" and x.get("id") == b.get("id"):
                    return ("name", "value")[i] if i < 2 else None
            o, f2 = origin(bare(e), fr, g)
            if o is not bare(e) and isinstance(o, dict):
                return binding(o, f2)
        return None

    def name_of(e, fr):
        e = bare(e)
        if isinstance(e, dict) and e.get("k") == "call" and e.get("q", "").split("::")[-1] in ("c_str", "data"):
            e = bare(e["obj"])
        return 1 if binding(e, fr) == "name" else None

    def index_of(e, fr):
        e = bare(e)
        if isinstance(e, dict) and e.get("k") == "call":
            return e.get("q") == "sqlite3_bind_parameter_index"
        return isinstance(e, dict) and e.get("k") == "var" and all(isinstance(v, dict) and v.get("k") == "call" and v["q"] == "sqlite3_bind_parameter_index" for v in assigned(e, fr))

    def sized(n, ty, x):
        p, s = bare(n.e["a"][2]), bare(n.e["a"][3])
        while isinstance(s, dict) and s.get("k") == "var" and len(list(assigned(s, n.fr))) == 1:
            s = bare(next(assigned(s, n.fr)))
        whole = isinstance(s, dict) and s.get("k") == "call" and s["q"].split("::")[-1] in ("size", "length") and "obj" in s and element(s["obj"], n.fr, "stringValue")
        nul = isinstance(s, dict) and (s.get("k") == "call" and s["q"].split("::")[-1] == "strlen" and isinstance(bare(s["a"][0]), dict) and bare(s["a"][0]).get("k") == "call" and element(bare(s["a"][0])["obj"], n.fr, "stringValue")
                                       or value(s, n.fr, g, frozenset()) == -1)
        if ty == "Blob" and not whole:
            bad(bind, "size", n, "a blob is not bound with all its bytes", x)
        if ty == "Text" and not nul:
            bad(rep, "nul", n, "a text is bound beyond its first NUL, where sqlite's expansion of the statement ends: the replicated statement stores another value", x)

    def edges(n, lab, m, t):
        if lab == "exc":
            return STOP
        if n.k == "switch":
            c = n.e.get("c")
            s, o = bare(c), None
            if isinstance(s, dict) and s.get("k") == "mem" and s.get("q") == "SQliteParameter::type" and binding(s["b"], n.fr) == "value":
                ty = type_case(lab)
                return put(put(t, "type", ty.split("::")[-1] if ty else "none"), "todo", 1 if ty else None)
            if column_type(s, n.fr):
                ty = type_case(lab)
                return put(t, "col", int(ty) if ty and re.fullmatch(r"\d+", ty) else None)
        if n.k == "branch" and lab in ("T", "F"):
            e, pol = strip(n.e), lab == "T"
            while isinstance(e, dict) and e.get("k") == "un" and e["op"] == "!":
                e, pol = strip(e["e"]), not pol
            if isinstance(e, dict) and e.get("k") == "bin" and e["op"] in ("==", "!="):
                eq = (e["op"] == "==") == pol
                s = bare(e["x"])
                if eq and isinstance(s, dict) and s.get("k") == "mem" and s.get("q") == "SQliteParameter::type" and binding(s["b"], n.fr) == "value":
                    c = bare(e["y"])
                    return put(put(t, "type", str(c.get("q", "none")).split("::")[-1]), "todo", 1)
                if eq and column_type(s, n.fr):
                    return put(t, "col", value(e["y"], n.fr, g, frozenset()))
        if n in heads:
            if lab == "T":
                if has(t, "todo") and has(t, "index"):
                    return put(t, "skipped", 1)
                return put(put(t, "type", None), "bindings", "some")
            return put(put(put(put(t, "bindings", "all"), "type", None), "index", None), "todo", None)
        if n.k == "rangehead":
            return t
        return t

    def column_type(s, fr):
        return isinstance(s, dict) and (s.get("k") == "call" and s.get("q") == "sqlite3_column_type" or s.get("k") == "var" and any(isinstance(v, dict) and v.get("k") == "call" and v["q"] == "sqlite3_column_type" for v in assigned(s, fr)))

    def events2(n, t, facts, x):
        if has(t, "skipped"):
            bad(bind, "skipped", n, "a parameter of a type is found in the statement but not bound", x)
            t = put(t, "skipped", None)
        return events(n, lean(t, n), facts, x)

    for np in (0, 1):
        for ex in (0, 1):
            t0 = frozenset([("env", params + ".size()", np), ("env", expanded, ex)])
            Cases(ctx, g, "none", None, events2, track="^$", edges=edges, only="^$").run([g.entry], frozenset(), t0, cap=150000)
    got = {BINDS.get(n.q[13:]) for n in g.nodes if n.k == "call" and n.q.startswith("sqlite3_bind_")}
    for ty in ("Null", "Int64", "Double", "Text", "Blob"):
        if ty not in got:
            ctx.bad(bind, q, "no " + ty, "%s:%d" % (f["file"], f["l"]), "parameters of type %s are never bound" % ty)
    for r in (run, res, fin, bind, val, rep):
        ctx.need(r, 1)


def overloads(ctx):
    """The other SQuery overloads hand everything they are given to the main one and answer what it answers."""
    rule = "every overload hands its database, text, parameters and result on, and answers what the query answered"
    for f in sorted(ctx.p.fns.values(), key=lambda f: f["id"]):
        if f["q"] != "SQuery" or not isinstance(f.get("body"), dict):
            continue
        g = ctx.graph(f, lambda h, e, fr: False)
        if any(n.k == "call" and n.q.startswith("sqlite3_prepare") for n in g.nodes):
            continue
        w = "%s:%d" % (f["file"], f["l"])
        cs = [n for n in g.nodes if n.k == "call" and n.q == "SQuery"]
        if len(cs) != 1:
            ctx.bad(rule, "SQuery", "calls " + str(len(f["p"])), w, "an overload of SQuery makes %d queries" % len(cs))
            continue
        n = cs[0]
        ctx.ok(rule, "overload at %s" % w)
        h = ctx.p.fns.get(n.e.get("f"))
        for i, p in enumerate(f["p"]):
            at = [j for j, a in enumerate(n.e["a"]) if g.canon(bare(a), n.fr) == p["n"] + "#0"]
            if len(at) != 1 or h is not None and h["p"][at[0]]["t"].replace("const ", "").replace(" &", "") != p["t"].replace("const ", "").replace(" &", ""):
                ctx.bad(rule, "SQuery", "%d %s" % (len(f["p"]), p["n"]), n.where(), "an overload of SQuery does not hand on its %s" % p["n"])
            elif h is not None and p["t"] in ("long", "bool") and h["p"][at[0]]["n"] != p["n"] and any(o["n"] == p["n"] and o["t"] == p["t"] for o in h["p"]):
                ctx.bad(rule, "SQuery", "%d %s" % (len(f["p"]), p["n"]), n.where(), "an overload of SQuery hands on its %s as something else" % p["n"])
        for r in g.nodes:
            if r.k == "return" and g.canon(bare(r.e["e"]), r.fr) != g.canon(n.e, n.fr):
                o, f2 = origin(bare(r.e["e"]), r.fr, g)
                if not (isinstance(o, dict) and g.canon(o, f2) == g.canon(n.e, n.fr)):
                    ctx.bad(rule, "SQuery", "%d answer" % len(f["p"]), r.where(), "an overload of SQuery answers something else than the query did")
    ctx.need(rule, 3)


@prop("C53")
def c53(ctx):
    squery(ctx)
    overloads(ctx)
