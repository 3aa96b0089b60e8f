"""Dissolves helpers: local lambdas that are only called, and functions the checks have never heard of, are written out where
they are called, as the language defines the call. Behaviour is unchanged; what the analyses see no longer depends on whether a
piece of code was given a name of its own. Functions the checks know (sa/known.txt) stay functions."""
import copy, os, re, sys

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known.txt")
CAST = ("cast", "defarg", "paren")


def strip(e):
    while isinstance(e, dict) and e.get("k") in CAST and isinstance(e.get("e"), dict) and e.get("ck") != "CXXDynamicCastExpr":
        e = e["e"]
    return e


def nodes(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from nodes(v)


def body_stmts(f):
    return [s for s in f["body"].get("s", ()) if isinstance(s, dict) and s.get("k") not in ("null", "log")]


class Norm:
    def __init__(self, prog, known):
        self.fns, self.known, self.decls = prog["functions"], known, prog["decls"]
        self.n = 0
        self.log = []

    # ---- what may be dissolved
    def rec(self, f, seen=()):
        """The function (indirectly) calls itself through candidates."""
        if f["id"] in seen:
            return True
        return any(self.rec(self.fns[e["f"]], seen + (f["id"],)) for e in nodes(f["body"]) if e.get("k") == "call" and e.get("f") in self.cand)

    def candidates(self):
        self.cand = {}
        uses = {}
        for f in self.fns.values():
            for e in nodes(f["body"]):
                if e.get("k") == "fref":
                    uses[e.get("f") or e.get("id") or e.get("q")] = 1
        for i, f in self.fns.items():
            if f.get("lambda") or f["q"] in self.known or f.get("isctor") or f.get("isdtor") or f.get("virtual") or f.get("over") or not isinstance(f.get("body"), dict):
                continue
            if i in uses or f["q"] in uses or f["n"].startswith("operator") or f["n"] == "main":
                continue
            self.cand[i] = "fn"
        # local lambdas
        self.lamvar = {}
        for f in self.fns.values():
            lam = {}
            for s in nodes(f["body"]):
                if s.get("k") == "decl" and isinstance(s.get("v"), list):
                    for v in s["v"]:
                        i = strip(v.get("init") or {})
                        if isinstance(i, dict) and i.get("k") == "lambda" and i["f"] in self.fns and len(s["v"]) == 1:
                            lam[v["id"]] = i
            if not lam:
                continue
            bodies = [f["body"]]
            todo = list(bodies)
            while todo:
                b = todo.pop()
                for e in nodes(b):
                    if e.get("k") == "lambda" and e["f"] in self.fns:
                        todo.append(self.fns[e["f"]]["body"])
                        bodies.append(self.fns[e["f"]]["body"])
            bad, calls = set(), {}
            objs = set()
            inner = {}
            for b in bodies:
                for e in nodes(b):
                    if e.get("k") == "call" and e.get("op") == "()" and isinstance(e.get("obj"), dict) and strip(e["obj"]).get("k") == "var":
                        v = strip(e["obj"]).get("id")
                        if v in lam and e.get("f") == lam[v]["f"]:
                            objs.add(id(strip(e["obj"])))
                            calls[v] = calls.get(v, 0) + 1
                            if b is not f["body"]:
                                inner[v] = 1
            for b in bodies:
                for e in nodes(b):
                    if e.get("k") == "var" and e.get("id") in lam and id(e) not in objs:
                        bad.add(e["id"])
            for v, le in lam.items():
                if v in bad or v not in calls or v in inner or any((not c.get("ref") and c.get("n") != "this") or "init" in c for c in le.get("cap", ())):
                    continue
                self.lamvar[(f["id"], v)] = (f["id"], le["f"])
                self.cand[le["f"]] = "lam"
        # lambdas called where they are written
        for f in self.fns.values():
            for e in nodes(f["body"]):
                if e.get("k") == "call" and e.get("op") == "()" and isinstance(e.get("obj"), dict):
                    o = strip(e["obj"])
                    if o.get("k") == "lambda" and o["f"] == e.get("f") and o["f"] in self.fns and not any("init" in c for c in o.get("cap", ())):
                        self.cand[o["f"]] = "iife"
        for i in list(self.cand):
            if self.rec(self.fns[i]):
                del self.cand[i]
        sites = {}
        for f in self.fns.values():
            for e in nodes(f["body"]):
                if e.get("k") == "call" and e.get("f") in self.cand:
                    sites[e["f"]] = sites.get(e["f"], 0) + 1
        self.sites = sites
        for i in list(self.cand):
            if sites.get(i, 0) > 1 and any(e.get("k") == "lambda" for e in nodes(self.fns[i]["body"])):
                del self.cand[i]
            elif sites.get(i, 0) > 12:
                del self.cand[i]

    # ---- one call
    def callee(self, e):
        e = strip(e)
        if not isinstance(e, dict) or e.get("k") != "call" or e.get("f") not in self.cand or e.get("v"):
            return None
        f = self.fns[e["f"]]
        if self.cand[e["f"]] == "fn" and f.get("c") and not f.get("static"):
            if strip(e.get("obj") or {}).get("k") != "this":
                return None
        if len(e.get("a", ())) != len(f["p"]) or any(not isinstance(a, dict) for a in e.get("a", ())):
            return None
        return f

    def simple(self, a):
        a = strip(a)
        k = a.get("k")
        if k in ("var", "this", "int", "bool", "str", "char", "null", "enum", "float", "lambda", "fref"):
            return True
        if k == "mem":
            return isinstance(a.get("b"), dict) and self.simple(a["b"]) if "b" in a else True
        if k == "un" and a["op"] in ("*", "&", "-", "!"):
            return self.simple(a["e"])
        if k == "ctor" and len([x for x in a.get("a", ()) if x.get("k") != "defarg"]) <= 1:
            return all(self.simple(x) for x in a.get("a", ()) if x.get("k") != "defarg")
        if k == "call" and a.get("op") in ("*", "->") and "obj" in a:
            return self.simple(a["obj"])
        if k == "bin" and a["op"] in ("==", "!=", "<", ">", "<=", ">=", "+", "-", "*"):
            return self.simple(a["x"]) and self.simple(a["y"])
        return False

    def assigned(self, f, pid):
        bodies = [f["body"]] + [self.fns[e["f"]]["body"] for e in nodes(f["body"]) if e.get("k") == "lambda" and e["f"] in self.fns]
        for b in bodies:
            for e in nodes(b):
                t = None
                if e.get("k") == "bin" and e["op"] in ("=", "+=", "-=", "|=", "&=", "*=", "/=", "%=", "^=", "<<=", ">>="):
                    t = e["x"]
                elif e.get("k") == "un" and e["op"] in ("++", "--", "&"):
                    t = e["e"]
                elif e.get("k") == "call" and e.get("op") in ("=", "+=", "-=", "++", "--"):
                    t = e.get("obj")
                t = strip(t) if isinstance(t, dict) else None
                if isinstance(t, dict) and t.get("k") == "var" and t.get("id") == pid:
                    return True
        return False

    def subst(self, x, m, ren):
        """Copy with parameters replaced and locals renamed."""
        if isinstance(x, list):
            return [self.subst(v, m, ren) for v in x]
        if not isinstance(x, dict):
            return x
        if x.get("k") == "var" and x.get("id") in m:
            return copy.deepcopy(m[x["id"]])
        y = {k: self.subst(v, m, ren) if isinstance(v, (dict, list)) else v for k, v in x.items()}
        if y.get("id") in ren and "n" in y:
            y["id"] = ren[y["id"]]
        return y

    def instance(self, f, call):
        """(leading statements, copied body) of a call."""
        m, pre = {}, []
        for p, a in zip(f["p"], call.get("a", ())):
            t = p["t"]
            u = strip(a)
            if u.get("k") == "call" and u.get("q") in ("std::move", "std::forward") and u.get("a"):
                if self.simple(u["a"][0]):
                    m[p["id"]] = strip(u["a"][0])
                    continue
            if u.get("k") == "ctor" and (u.get("move") or u.get("copy")) and len(u.get("a", ())) == 1:
                w = strip(u["a"][0])
                if w.get("k") == "call" and w.get("q") in ("std::move", "std::forward") and w.get("a"):
                    w = strip(w["a"][0])
                if self.simple(w) and not self.assigned(f, p["id"]):
                    m[p["id"]] = w
                    continue
            used = sum(1 for e in nodes(f["body"]) if e.get("k") == "var" and e.get("id") == p["id"])
            if self.simple(a) and (t.endswith("&") or not self.assigned(f, p["id"])):
                m[p["id"]] = a
            elif used == 0 and self.simple(a):
                pass
            else:
                self.n += 1
                pid = "%s~%d" % (p["id"], self.n)
                pre.append({"k": "decl", "l": call.get("l", 0), "v": [{"n": p["n"], "id": pid, "t": t, "l": call.get("l", 0), "init": a}]})
                m[p["id"]] = {"k": "var", "l": call.get("l", 0), "n": p["n"], "t": t, "vk": "local", "id": pid}
        lams = [e["f"] for e in nodes(f["body"]) if e.get("k") == "lambda"]
        ren = {}
        if not lams:
            self.n += 1
            for s in nodes(f["body"]):
                if s.get("k") == "decl" and isinstance(s.get("v"), list):
                    for v in s["v"]:
                        ren[v["id"]] = "%s~%d" % (v["id"], self.n)
                for key in ("var", "cv"):
                    if isinstance(s.get(key), dict) and "id" in s[key]:
                        ren[s[key]["id"]] = "%s~%d" % (s[key]["id"], self.n)
                if s.get("k") == "try":
                    for h in s.get("h", ()):
                        if h.get("id"):
                            ren[h["id"]] = "%s~%d" % (h["id"], self.n)
        else:
            todo, seen = list(lams), set()
            while todo:
                i = todo.pop()
                if i in seen or i not in self.fns:
                    continue
                seen.add(i)
                self.fns[i]["body"] = self.subst(self.fns[i]["body"], m, {})
                todo += [e["f"] for e in nodes(self.fns[i]["body"]) if e.get("k") == "lambda"]
        return pre, self.subst(f["body"], m, ren)

    def returns(self, b):
        return [s for s in nodes(b) if s.get("k") == "return"]

    def trailing(self, f):
        """The only return is the last statement."""
        s = f["body"].get("s", ())
        return bool(s) and s[-1].get("k") == "return" and len(self.returns(f["body"])) == 1

    def replace_returns(self, x, make):
        if isinstance(x, list):
            return [self.replace_returns(v, make) for v in x]
        if not isinstance(x, dict):
            return x
        if x.get("k") == "return":
            return make(x)
        return {k: self.replace_returns(v, make) if isinstance(v, (dict, list)) else v for k, v in x.items()}

    def inl(self, f, call, make=None):
        """The call as a statement; make turns a returned expression into statements."""
        pre, b = self.instance(f, call)
        tail = b.get("s") and b["s"][-1].get("k") == "return" and len(self.returns(b)) == 1

        def mk(r):
            out = []
            if "e" in r:
                out = [make(r["e"], r)] if make else [{"k": "expr", "l": r.get("l", 0), "e": r["e"]}]
            if not tail:
                out.append({"k": "leaveinl", "l": r.get("l", 0)})
            return {"k": "block", "l": r.get("l", 0), "s": out}
        b = self.replace_returns(b, mk)
        self.done(f)
        if not pre and not any(s.get("k") == "leaveinl" for s in nodes(b)) and not any(y.get("k") == "decl" for y in b["s"]):
            return {"k": "seq", "s": b["s"]}
        return {"k": "inl" if not tail else "block", "l": call.get("l", 0), "s": pre + [b]}

    def done(self, f):
        self.log.append(f["id"])

    # ---- statements
    def stmt(self, s):
        """A replacement for the statement, or None."""
        k = s.get("k")
        if k == "expr":
            e = strip(s["e"]) if isinstance(s.get("e"), dict) else {}
            f = self.callee(e)
            if f:
                return self.inl(f, e)
            x = None
            if e.get("k") == "bin" and e.get("op") == "=":
                f = self.callee(e["y"])
                if f and f["ret"] != "void":
                    return self.inl(f, strip(e["y"]), lambda v, r: {"k": "expr", "l": s.get("l", 0), "e": dict(e, y=v)})
            if e.get("k") == "call" and e.get("op") == "=" and len(e.get("a", ())) == 1 and "obj" in e:
                f = self.callee(e["a"][0])
                if f and f["ret"] != "void":
                    return self.inl(f, strip(e["a"][0]), lambda v, r: {"k": "expr", "l": s.get("l", 0), "e": dict(e, a=[v])})
        if k == "return" and isinstance(s.get("e"), dict):
            f = self.callee(s["e"])
            if f:
                c = strip(s["e"])
                pre, b = self.instance(f, c)
                self.done(f)
                tail = [{"k": "return", "l": s.get("l", 0)}] if f["ret"] == "void" else []
                if not pre and b.get("k") == "block" and not any(y.get("k") == "decl" for y in b["s"]):
                    return {"k": "seq", "s": b["s"] + tail}
                return {"k": "block", "l": s.get("l", 0), "s": pre + [b] + tail}
        if k == "decl" and isinstance(s.get("v"), list) and len(s["v"]) == 1:
            v = s["v"][0]
            i = v.get("init")
            f = self.callee(i) if isinstance(i, dict) else None
            w = i
            if not f and isinstance(i, dict) and strip(i).get("k") == "ctor" and (strip(i).get("move") or strip(i).get("copy")) and len(strip(i).get("a", ())) == 1:
                w = strip(i)["a"][0]
                f = self.callee(w)
            if f and f["ret"] != "void" and len(body_stmts(f)) > 1:
                c = strip(w)
                flat = self.trailing(f) and not any(x.get("d") for y in f["body"]["s"] if y.get("k") == "decl" for x in y["v"])
                if flat:
                    pre, b = self.instance(f, c)
                    self.done(f)
                    r = b["s"][-1]
                    return {"k": "seq", "s": pre + b["s"][:-1] + [dict(s, v=[dict(v, init=r["e"])])]}
                if not v["t"].endswith("&") and not v["t"].startswith("const ") and (not v.get("c")):
                    var = {"k": "var", "l": s.get("l", 0), "n": v["n"], "t": v["t"], "vk": "local", "id": v["id"]}
                    return {"k": "seq", "s": [dict(s, v=[{a: b for a, b in v.items() if a != "init"}]),
                                              self.inl(f, c, lambda e, r: {"k": "expr", "l": r.get("l", 0), "e": {"k": "bin", "op": "=", "l": r.get("l", 0), "x": dict(var), "y": e, "t": v["t"]}})]}
        if k == "if" and "init" not in s and not s.get("cv"):
            # the first thing the condition evaluates
            path, e = [], s["c"]
            while isinstance(e, dict):
                if e.get("k") in CAST and isinstance(e.get("e"), dict) and e.get("ck") != "CXXDynamicCastExpr":
                    path.append("e")
                    e = e["e"]
                elif e.get("k") == "un" and e["op"] == "!":
                    path.append("e")
                    e = e["e"]
                elif e.get("k") == "bin" and e["op"] in ("&&", "||", "==", "!="):
                    path.append("x")
                    e = e["x"]
                else:
                    break
            f = self.callee(e) if isinstance(e, dict) else None
            if f and f["ret"] != "void" and len(body_stmts(f)) > 1 and not f["ret"].startswith(("std::", "const ")):
                self.n += 1
                v = {"n": "result", "id": "result@~%d" % self.n, "t": f["ret"], "l": s.get("l", 0)}
                var = {"k": "var", "l": s.get("l", 0), "n": "result", "t": f["ret"], "vk": "local", "id": v["id"]}
                c2 = self.put(s["c"], path, var)
                i = self.inl(f, e, lambda x, r: {"k": "expr", "l": r.get("l", 0), "e": {"k": "bin", "op": "=", "l": r.get("l", 0), "x": dict(var), "y": x, "t": v["t"]}})
                return {"k": "block", "l": s.get("l", 0), "s": [{"k": "decl", "l": s.get("l", 0), "v": [v]}, i, dict(s, c=c2)]}
        return None

    def put(self, e, path, v):
        if not path:
            return v
        return dict(e, **{path[0]: self.put(e[path[0]], path[1:], v)})

    def expr(self, e):
        """A replacement for a call of a helper that is one expression."""
        if e.get("k") != "call":
            return None
        f = self.callee(e)
        if not f:
            return None
        b = body_stmts(f)
        if len(b) != 1 or b[0].get("k") != "return" or not isinstance(b[0].get("e"), dict):
            return None
        for p, a in zip(f["p"], e.get("a", ())):
            used = sum(1 for x in nodes(b[0]["e"]) if x.get("k") == "var" and x.get("id") == p["id"])
            if not self.simple(a) and (used > 1 or strip(a).get("k") == "ctor"):
                return None
        m = {p["id"]: a for p, a in zip(f["p"], e.get("a", ()))}
        self.done(f)
        return self.subst(b[0]["e"], m, {})

    def rewrite(self, x):
        if isinstance(x, list):
            out = []
            for v in x:
                w = self.rewrite(v) if isinstance(v, (dict, list)) else v
                if isinstance(w, dict) and w.get("k") == "seq":
                    out += w["s"]
                else:
                    out.append(w)
            return out
        if x.get("k") in ("expr", "return", "decl", "if"):
            # an expression helper dissolves into the expression before the statement is looked at
            for key in ("e", "c"):
                pass
            r = self.stmt(x)
            if r is not None:
                self.changed = True
                return r
        r = self.expr(x) if x.get("k") == "call" else None
        if r is not None:
            self.changed = True
            return r
        for k in list(x):
            v = x[k]
            if isinstance(v, (dict, list)):
                w = self.rewrite(v)
                if isinstance(w, dict) and w.get("k") == "seq":
                    w = dict(w, k="block", l=0)
                x[k] = w
        return x

    def run(self):
        for rnd in range(8):
            self.candidates()
            if not self.cand:
                break
            self.changed = False
            for i in list(self.fns):
                f = self.fns[i]
                if isinstance(f.get("body"), dict):
                    f["body"] = self.rewrite(f["body"])
                for ini in f.get("inits", ()):
                    if isinstance(ini, dict):
                        for k in list(ini):
                            if isinstance(ini[k], (dict, list)):
                                ini[k] = self.rewrite(ini[k])
            self.cleanup()
            if not self.changed:
                break

    def cleanup(self):
        """Forget what nobody calls any more."""
        dissolved = set(self.log)
        while True:
            used, names = set(), set()
            for f in self.fns.values():
                for e in nodes([f.get("body"), f.get("inits", [])]):
                    if isinstance(e.get("f"), str):
                        used.add(e["f"])
                    if e.get("k") == "fref":
                        names.add(e.get("q"))
                    if e.get("k") == "call" and e.get("op") == "()" and isinstance(e.get("obj"), dict) and strip(e["obj"]).get("k") == "var":
                        names.add((f["id"], strip(e["obj"]).get("id")))
            gone = False
            # variables that named a dissolved lambda
            for v, (fid, lf) in list(self.lamvar.items()):
                if lf in dissolved and v not in names and fid in self.fns:
                    self.drop_decl(self.fns[fid]["body"], v[1])
                    del self.lamvar[v]
                    gone = True
            if gone:
                continue
            for i in list(self.fns):
                if i in dissolved and i not in used and self.fns[i]["q"] not in names:
                    del self.fns[i]
                    gone = True
            if not gone:
                break

    def drop_decl(self, x, vid):
        if isinstance(x, list):
            for i in range(len(x) - 1, -1, -1):
                v = x[i]
                if isinstance(v, dict) and v.get("k") == "decl" and isinstance(v.get("v"), list) and len(v["v"]) == 1 and v["v"][0]["id"] == vid:
                    del x[i]
                elif isinstance(v, (dict, list)):
                    self.drop_decl(v, vid)
        elif isinstance(x, dict):
            for v in x.values():
                if isinstance(v, (dict, list)):
                    self.drop_decl(v, vid)


def shape(e):
    """Text of an expression without positions."""
    if isinstance(e, dict):
        return "{" + ",".join("%s:%s" % (k, shape(v)) for k, v in sorted(e.items()) if k not in ("l", "ar", "t", "_this")) + "}"
    if isinstance(e, list):
        return "[" + ",".join(shape(v) for v in e) + "]"
    return str(e)


def const0(e):
    e = strip(e)
    return isinstance(e, dict) and e.get("k") == "int" and e.get("v") == 0


class Loops:
    """Loops that only visit the elements of a container, in order, become range loops however they are spelled."""

    def __init__(self, norm):
        self.norm, self.n = norm, 0

    def is_var(self, e, i):
        e = strip(e)
        return isinstance(e, dict) and e.get("k") == "var" and e.get("id") == i

    def container(self, e, names):
        """X of X.begin() / std::begin(X)."""
        e = strip(e)
        if isinstance(e, dict) and e.get("k") == "ctor" and (e.get("copy") or e.get("move") or len(e.get("a", ())) == 1) and e.get("a"):
            return self.container(e["a"][0], names)
        if isinstance(e, dict) and e.get("k") == "call" and e.get("q", "").startswith("std::"):
            if e["q"].split("::")[-1] in names:
                if "obj" in e and not e.get("a"):
                    return strip(e["obj"])
                if "obj" not in e and len(e.get("a", ())) == 1:
                    return strip(e["a"][0])
        return None

    def match(self, init, cond, inc):
        """(variable, container, by index) of a loop header."""
        if not isinstance(init, dict) or init.get("k") != "decl" or len(init.get("v", ())) != 1:
            return None
        v = init["v"][0]
        i = v.get("init")
        if not isinstance(i, dict) or not isinstance(cond, dict) or not isinstance(inc, dict):
            return None
        n = strip(inc)
        if n.get("k") == "un" and n.get("op") == "++":
            o = n["e"]
        elif n.get("k") == "call" and n.get("op") == "++" and "obj" in n:
            o = n["obj"]
        elif n.get("k") == "bin" and n.get("op") == "+=" and strip(n["y"]).get("v") == 1:
            o = n["x"]
        else:
            return None
        if not self.is_var(o, v["id"]):
            return None
        X = self.container(i, ("begin", "cbegin"))
        c = strip(cond)
        if X is not None:
            neg = False
            while c.get("k") == "un" and c["op"] == "!":
                neg, c = not neg, strip(c["e"])
            if c.get("op") not in ("==", "!=") or (c["op"] == "!=") == neg:
                return None
            a = [c["x"], c["y"]] if c.get("k") == "bin" else ([c["obj"]] if "obj" in c else []) + list(c.get("a", ()))
            if len(a) != 2:
                return None
            if not self.is_var(a[0], v["id"]):
                a.reverse()
            Y = self.container(a[1], ("end", "cend"))
            if not self.is_var(a[0], v["id"]) or Y is None or shape(X) != shape(Y) or not self.norm.simple(X):
                return None
            return v, X, False
        if const0(i) and c.get("k") == "bin" and c["op"] in ("<", ">", "!="):
            x, y = (c["x"], c["y"]) if c["op"] != ">" else (c["y"], c["x"])
            if c["op"] == "!=" and not self.is_var(x, v["id"]):
                x, y = y, x
            Y = self.container(y, ("size",))
            if self.is_var(x, v["id"]) and Y is not None and self.norm.simple(Y):
                return v, Y, True
        return None

    def element(self, e, v, X, idx):
        """'*' when e is the element, '->' when it points to it."""
        e = strip(e)
        if not isinstance(e, dict):
            return None
        if idx:
            if e.get("k") == "call" and e.get("op") == "[]" and "obj" in e and len(e.get("a", ())) == 1 and self.is_var(e["a"][0], v["id"]) and shape(strip(e["obj"])) == shape(X):
                return "*"
            if e.get("k") == "call" and e.get("q", "").endswith("::at") and "obj" in e and len(e.get("a", ())) == 1 and self.is_var(e["a"][0], v["id"]) and shape(strip(e["obj"])) == shape(X):
                return "*"
            return None
        if e.get("k") == "call" and e.get("op") in ("*", "->") and "obj" in e and not e.get("a") and self.is_var(e["obj"], v["id"]):
            return e["op"]
        if e.get("k") == "un" and e.get("op") == "*" and self.is_var(e["e"], v["id"]):
            return "*"
        return None

    def convert(self, v, X, idx, body, l):
        uses = sum(1 for e in nodes(body) if e.get("k") == "var" and e.get("id") == v["id"])
        elems = [e for e in nodes(body) if e.get("k") in ("call", "un") and self.element(e, v, X, idx) and strip(e) is e]
        if uses != len(elems) or not elems:
            return None
        for e in nodes(body):     # not from inside a lambda, and the container stays as it is
            if e.get("k") == "lambda" and any(c.get("n") == v["n"] for c in e.get("cap", ())):
                return None
            if e.get("k") == "call" and "obj" in e and e.get("q", "").split("::")[-1] in ("erase", "insert", "push_back", "emplace_back", "emplace", "push_front", "clear", "pop_front", "pop_back") and shape(strip(e["obj"])) == shape(X):
                return None
        et = next((e.get("t") for e in elems if self.element(e, v, X, idx) == "*" and e.get("t")), None)
        if et is None:
            m = re.match(r"std::_\w+<(.*)>$", v["t"])
            et = m.group(1) if m else next((e["t"][:-2] for e in elems if e.get("t", "").endswith(" *")), "auto")
        var, s = None, body.get("s") if body.get("k") == "block" else None
        if s and s[0].get("k") == "decl" and len(s[0]["v"]) == 1 and isinstance(s[0]["v"][0].get("init"), dict):
            i = strip(s[0]["v"][0]["init"])
            if i.get("k") == "ctor" and (i.get("copy") or i.get("move")) and len(i.get("a", ())) == 1:
                i = strip(i["a"][0])
            if self.element(i, v, X, idx) == "*" and not s[0]["v"][0].get("binds"):
                var = {a: b for a, b in s[0]["v"][0].items() if a != "init"}
                body = dict(body, s=s[1:])
        if var is None:
            self.n += 1
            var = {"n": "element", "id": "element@~%d" % self.n, "t": et + " &"}
        ref = {"k": "var", "l": l, "n": var["n"], "t": var["t"], "vk": "local", "id": var["id"]}

        def sub(x, key=None, par=None):
            if isinstance(x, list):
                return [sub(y) for y in x]
            if not isinstance(x, dict):
                return x
            w = self.element(x, v, X, idx) if x.get("k") in ("call", "un") else None
            if w == "*":
                return dict(ref)
            if w == "->":
                return {"k": "un", "op": "&", "l": x.get("l", 0), "e": dict(ref), "t": et + " *"}
            y = {a: sub(b) if isinstance(b, (dict, list)) else b for a, b in x.items()}
            for a in ("b", "obj"):
                z = y.get(a)
                if isinstance(z, dict) and z.get("k") == "un" and z.get("op") == "&" and y.get("ar") and strip(z["e"]).get("id") == var["id"]:
                    y[a] = z["e"]
                    y.pop("ar")
            return y
        return {"k": "rangefor", "l": l, "var": var, "range": X, "body": sub(body)}

    def has(self, x, kinds):
        """A continue (break) of this loop."""
        if isinstance(x, list):
            return any(self.has(v, kinds) for v in x)
        if not isinstance(x, dict):
            return False
        if x.get("k") in kinds:
            return True
        if x.get("k") in ("for", "while", "do", "rangefor", "lambda"):
            return False
        return any(self.has(v, kinds) for v in x.values() if isinstance(v, (dict, list)))

    def rewrite(self, x):
        if isinstance(x, list):
            out = []
            for i, v in enumerate(x):
                w = self.rewrite(v) if isinstance(v, (dict, list)) else v
                # declaration, while loop that ends by stepping on
                if isinstance(w, dict) and w.get("k") == "while" and not w.get("cv") and out and isinstance(out[-1], dict) and out[-1].get("k") == "decl" \
                        and isinstance(w.get("body"), dict) and w["body"].get("k") == "block" and w["body"].get("s") and w["body"]["s"][-1].get("k") == "expr" and not self.has(w["body"], ("continue",)):
                    m = self.match(out[-1], w["c"], w["body"]["s"][-1].get("e"))
                    if m and not any(e.get("k") == "var" and e.get("id") == m[0]["id"] for r in x[i + 1:] for e in nodes(r)):
                        r = self.convert(m[0], m[1], m[2], dict(w["body"], s=w["body"]["s"][:-1]), w.get("l", 0))
                        if r is not None:
                            out[-1] = r
                            continue
                out.append(w)
            return out
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                x[k] = self.rewrite(x[k])
        if x.get("k") == "for" and all(n in x for n in ("init", "c", "inc", "body")):
            m = self.match(x["init"], x["c"], x["inc"])
            if m:
                r = self.convert(m[0], m[1], m[2], x["body"], x.get("l", 0))
                if r is not None:
                    return r
        return x

    def ranges(self, f):
        """A range that is only another name."""
        refs = {}
        for s in nodes(f["body"]):
            if s.get("k") == "decl":
                for v in s["v"]:
                    if v["t"].endswith("&") and isinstance(v.get("init"), dict) and self.norm.simple(v["init"]):
                        refs[v["id"]] = v["init"]
        for s in nodes(f["body"]):
            if s.get("k") == "rangefor":
                r = strip(s["range"])
                if r.get("k") == "var" and r.get("id") in refs:
                    s["range"] = copy.deepcopy(refs[r["id"]])


LITERAL = ("int", "char", "bool", "null", "str", "enum")
MIRROR = {"==": "==", "!=": "!=", "<": ">", ">": "<", "<=": ">=", ">=": "<="}


def tidy(x):
    """Constants on the right of a comparison; no variable that only carries a result to the return right after it."""
    if isinstance(x, list):
        out = []
        for v in x:
            w = tidy(v) if isinstance(v, (dict, list)) else v
            if isinstance(w, dict) and w.get("k") == "return" and out and isinstance(out[-1], dict) and out[-1].get("k") == "decl" and len(out[-1].get("v", [])) == 1:
                d, r = out[-1]["v"][0], w.get("e")
                while isinstance(r, dict) and (r.get("k") in ("cast", "defarg") and isinstance(r.get("e"), dict) or r.get("k") == "ctor" and len(r.get("a", [])) == 1):
                    r = r["e"] if "e" in r else r["a"][0]
                if isinstance(r, dict) and r.get("k") == "var" and r.get("id") == d.get("id") and d.get("t", "").replace("const ", "") in ("bool", "int", "long", "unsigned long", "size_t", "uint64_t", "int64_t") and isinstance(d.get("init"), dict) and not d.get("static"):
                    out[-1] = dict(w, e=d["init"])
                    continue
            out.append(w)
        return out
    for k in list(x):
        if isinstance(x[k], (dict, list)):
            x[k] = tidy(x[k])
    if x.get("k") == "bin" and x.get("op") in MIRROR and isinstance(x.get("x"), dict) and isinstance(x.get("y"), dict):
        if strip(x["x"]).get("k") in LITERAL and strip(x["y"]).get("k") not in LITERAL:
            x["x"], x["y"], x["op"] = x["y"], x["x"], MIRROR[x["op"]]
    if x.get("k") == "bin" and isinstance(x.get("y"), dict) and isinstance(x.get("x"), dict) and (x["op"] in ("==", "!=", ">") and const0(x["y"]) or x["op"] in ("<", ">=") and strip(x["y"]).get("k") == "int" and str(strip(x["y"]).get("v")) == "1"):
        c = strip(x["x"])
        if c.get("k") == "call" and c.get("q", "").startswith("std::") and c["q"].rsplit("::", 1)[-1] in ("size", "length") and "obj" in c and not c.get("a"):
            y = dict(c, q=c["q"].rsplit("::", 1)[0] + "::empty", t="bool")
            y.pop("f", None)
            return y if x["op"] in ("==", "<") else {"k": "un", "op": "!", "e": y, "t": "bool", "l": x.get("l", 0)}
    if x.get("k") == "call" and x.get("op") in ("==", "!=") and "obj" not in x and len(x.get("a", [])) == 2:
        a, b = x["a"]
        if isinstance(a, dict) and isinstance(b, dict) and strip(a).get("k") in LITERAL and strip(b).get("k") not in LITERAL:
            x["a"] = [b, a]
    return x


def known():
    try:
        return set(l.rstrip("\n") for l in open(KNOWN))
    except OSError:
        return None


def normalize(prog):
    k = known()
    if k is None:
        return prog
    n = Norm(prog, k)
    n.run()
    lp = Loops(n)
    for f in prog["functions"].values():
        if isinstance(f.get("body"), dict):
            f["body"] = lp.rewrite(f["body"])
            lp.ranges(f)
            f["body"] = tidy(f["body"])
    prog["dissolved"] = sorted(set(n.log))
    return prog
