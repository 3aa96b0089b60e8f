"""Containers with stable iterators, and objects on the heap, for the abstract interpreter."""
from .absint import *

ANY = object()


class Node:
    def __init__(self, v, k=None):
        self.c, self.k, self.gone = Cell(v), k, False


class Pos:
    """An iterator: a node, or None for the end."""

    def __init__(self, of, node):
        self.of, self.node = of, node

    def key(self):
        return ("pos", id(self.of), id(self.node) if self.node else 0)

    def at(self):
        if self.node is None or self.node.gone:
            raise Bad("an iterator that is %s is dereferenced" % ("no longer valid" if self.node else "at the end"))
        if getattr(self.of, "isset", False):
            return Cell(self.node.k)
        return Cell(CPair(Cell(self.node.k), self.node.c)) if isinstance(self.of, Tree) else self.node.c

    def member(self, n, e):
        x = self.at().v
        return (x.one() if n == "first" else x.second) if isinstance(x, CPair) else x.member(n, e) if hasattr(x, "member") else None


class Bad(Exception):
    """What the code does is undefined."""


class Heap:
    """An object that was allocated."""
    definite = True         # equal to itself only

    def __init__(self, typ):
        self.typ, self.d, self.freed = typ, {}, False

    def key(self):
        return ("heap", id(self))

    def member(self, n, e):
        if self.freed:
            raise Bad("an object is used after it was deleted")
        if n not in self.d:
            self.d[n] = Cell(Str() if is_str_type(e.get("t", "")) else Term("unset", n))
        return self.d[n]


class Linked:
    """A list, deque, queue or vector."""

    def __init__(self, items=()):
        self.nodes = [Node(x) for x in items]

    def key(self):
        return ("linked", id(self))

    def iterate(self):
        return [n.c for n in self.nodes]

    def index(self, pos):
        if pos.of is not self or pos.node is not None and pos.node.gone:
            raise Bad("an iterator that is no longer valid is used")
        return len(self.nodes) if pos.node is None else self.nodes.index(pos.node)

    def pos(self, i):
        return Pos(self, self.nodes[i] if i < len(self.nodes) else None)

    def drop(self, i):
        if not 0 <= i < len(self.nodes):
            raise Bad("an element that does not exist is removed")
        self.nodes.pop(i).gone = True

    def call(self, I, n, a):
        if n == "empty":
            return int(not self.nodes)
        if n == "size":
            return len(self.nodes)
        if n in ("begin", "cbegin"):
            return self.pos(0)
        if n in ("end", "cend"):
            return Pos(self, None)
        if n in ("front", "back"):
            if not self.nodes:
                raise Bad("the first element of an empty list is used")
            return self.nodes[0 if n == "front" else -1].c
        if n in ("push_back", "emplace_back", "push"):
            self.nodes.append(Node(a[0].v))
            return self.nodes[-1].c
        if n in ("push_front", "emplace_front"):
            self.nodes.insert(0, Node(a[0].v))
            return self.nodes[0].c
        if n in ("pop_front", "pop"):
            self.drop(0)
            return 0
        if n == "pop_back":
            self.drop(len(self.nodes) - 1)
            return 0
        if n in ("insert", "emplace") and len(a) == 2 and isinstance(a[0].v, Pos):
            x = Node(a[1].v)
            self.nodes.insert(self.index(a[0].v), x)
            return Pos(self, x)
        if n == "erase" and isinstance(a[0].v, Pos):
            i = self.index(a[0].v)
            j = self.index(a[1].v) if len(a) > 1 else i + 1
            for _ in range(i, j):
                self.drop(i)
            return self.pos(i)
        if n == "splice" and len(a) == 3 and a[1].v is self and isinstance(a[2].v, Pos):
            x = self.nodes[self.index(a[2].v)] if a[2].v.node else None
            if x is None:
                raise Bad("the end of a list is moved")
            if a[0].v.node is not x:
                self.nodes.remove(x)
                self.nodes.insert(self.index(a[0].v), x)
            return 0
        if n == "clear":
            while self.nodes:
                self.drop(0)
            return 0
        if n in ("remove", "remove_if"):
            keep = [x for x in self.nodes if not (I.apply(a[0].v, x.c) if n == "remove_if" else I.truth(I.equal(x.c.v, a[0].v)))]
            for x in self.nodes:
                x.gone = x not in keep
            self.nodes = keep
            return 0
        if n in ("operator[]", "at") and isinstance(a[0].v, int):
            if not 0 <= a[0].v < len(self.nodes):
                raise Bad("an element that does not exist is used")
            return self.nodes[a[0].v].c
        if n in ("reserve", "shrink_to_fit"):
            return 0
        return None


class Tree(Linked):
    """A map (or a set) with concrete keys."""

    def __init__(self, items=(), isset=False):
        self.nodes = [Node(v, k) for k, v in items]
        self.isset = isset

    def find(self, k):
        return next((x for x in self.nodes if freeze(x.k) == freeze(k)), None)

    def put(self, k, v):
        x = Node(v, k)
        self.nodes.append(x)
        try:
            self.nodes.sort(key=lambda y: y.k.lit if isinstance(y.k, Str) else y.k)
        except TypeError:
            raise Give("the order of a map")
        return x

    def iterate(self):
        return [Cell(x.k) if self.isset else Cell(CPair(Cell(x.k), x.c)) for x in self.nodes]

    def call(self, I, n, a):
        if n in ("empty", "size", "begin", "end", "cbegin", "cend", "clear"):
            return Linked.call(self, I, n, a)
        k = a[0].v if a else None
        if n in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            if self.isset:
                v = None
            elif isinstance(k, CPair):
                k, v = k.one().v, k.second.v
            elif len(a) == 2:
                v = a[1].v
            else:
                return None
            x = self.find(k)
            new = x is None
            if new:
                x = self.put(k, v)
            elif n == "insert_or_assign":
                x.c.v = v
            return CPair(Cell(Pos(self, x)), Cell(int(new)))
        if n == "find":
            return Pos(self, self.find(k))
        if n in ("count", "contains"):
            return int(self.find(k) is not None)
        if n == "operator[]" or n == "at":
            x = self.find(k)
            if x is None and n == "at":
                raise Throw("std::out_of_range", "at", I.line)
            return (x or self.put(k, Term("unset", "value"))).c
        if n == "erase":
            if isinstance(k, Pos):
                if k.node is None or k.of is not self:
                    raise Bad("what is erased is not in the map")
                i = self.index(k)
                self.drop(i)
                return self.pos(i)
            x = self.find(k)
            if x is not None:
                self.drop(self.nodes.index(x))
            return int(x is not None)
        return None


class HeapWorld:
    """Hooks for code over Linked, Tree and Heap objects."""

    def __init__(self, classes):
        self.classes = classes
        self.objects = []

    def inline(self, I, g):
        return any(g["q"].startswith(c) for c in self.classes)

    def new(self, I, e, fr):
        h = Heap(e.get("t", ""))
        self.objects.append(h)
        return Cell(h)

    def delete(self, I, e, fr):
        v = I.ev(e.get("e") or e["a"][0], fr)
        if not isinstance(v, Heap):
            return None
        if v.freed:
            raise Bad("an object is deleted twice")
        v.freed = True
        return Cell(0)

    def construct(self, I, e, fr):
        t = e.get("c") or e.get("t", "")
        a = [x for x in e.get("a", ()) if isinstance(x, dict) and x.get("k") != "defarg"]
        if t.startswith("std::pair") and len(a) == 2:
            return Cell(CPair(Cell(thaw_copy(I.ev(a[0], fr))), Cell(thaw_copy(I.ev(a[1], fr)))))
        return None

    def call(self, I, e, q, fr):
        n = q.split("::")[-1]
        a = [x for x in e.get("a", ()) if isinstance(x, dict) and x.get("k") != "defarg"]
        if q == "std::make_pair" and len(a) == 2:
            return Cell(CPair(Cell(thaw_copy(I.ev(a[0], fr))), Cell(thaw_copy(I.ev(a[1], fr)))))
        if q in ("std::next", "std::prev") and a:
            v = I.ev(a[0], fr)
            if isinstance(v, Pos):
                return Cell(v.of.pos(v.of.index(v) + (1 if n == "next" else -1)))
        o = None
        if isinstance(e.get("obj"), dict) and strip(e["obj"]).get("k") in ("mem", "var", "un", "idx"):
            o = I.lv(e["obj"], fr)
        elif e.get("op") and a and "obj" not in e and strip(a[0]).get("k") in ("mem", "var", "un"):
            o = I.lv(a[0], fr)
            a = a[1:]
        if o is None:
            return None
        v = o.v
        if isinstance(v, Pos):
            if e.get("op") in ("==", "!="):
                w = I.ev(a[0], fr)
                if not isinstance(w, Pos):
                    return None
                return Cell(int((v.node is w.node) == (e["op"] == "==")))
            if e.get("op") == "*":
                return v.at()
            if e.get("op") == "->":
                return v.at()
            if e.get("op") in ("++", "--"):
                o.v = v.of.pos(v.of.index(v) + (1 if e["op"] == "++" else -1))
                return Cell(v) if a else o
            if e.get("op") == "=":
                o.v = I.ev(a[0], fr)
                return o
            return None
        if isinstance(v, Linked):
            r = v.call(I, n, [I.lv(x, fr) for x in a])
            if r is None:
                raise Give("%s has no model" % q)
            return r if isinstance(r, Cell) else Cell(r)
        return None
