"""Unbounded dicts and heaps of arbitrary contents as z3 arrays (trusted models of dict and heapq)."""
from .common import *

HasMap = z3.ArraySort(V, z3.BoolSort())
CntMap = z3.ArraySort(V, z3.IntSort())
ValMap = z3.ArraySort(V, V)


class SymMap(Heap):
    """dict: has[k], val[k]; on_get(run, kterm) may add facts the contract's invariant gives about that key"""

    kind = "dict"

    def __init__(self, run, name, wrap=None, empty=False):
        self.has = z3.K(V, z3.BoolVal(False)) if empty else z3.Const(run.fresh_name(name + "_has"), HasMap)
        self.val = z3.Const(run.fresh_name(name + "_val"), ValMap)
        self.name = name
        self.wrap = wrap or (lambda run, t: run.from_V(t))
        self.on_key = lambda run, k: None
        self.cls = Ext("builtins.dict", dict)
        run.new(self)

    def locs(self):
        return {"has": self.has, "val": self.val}

    def setloc(self, k, v):
        setattr(self, k, v)

    def havoc(self, run):
        run.write(self, "has", z3.Const(run.fresh_name(self.name + "_has"), HasMap))
        run.write(self, "val", z3.Const(run.fresh_name(self.name + "_val"), ValMap))

    def H(self, k):
        return z3.Select(self.has, k)

    def G(self, k):
        return z3.Select(self.val, k)

    def contains(self, run, x):
        k = run.to_V(x)
        self.on_key(run, k)
        return self.H(k)

    def getitem(self, run, x):
        if run.branch(self.contains(run, x)):
            return self.wrap(run, self.G(run.to_V(x)))
        run.raise_("KeyError", x)

    def setitem(self, run, x, v):
        k = run.to_V(x)
        run.write(self, "has", z3.Store(self.has, k, True))
        run.write(self, "val", z3.Store(self.val, k, run.to_V(v)))

    def delitem(self, run, x):
        k = run.to_V(x)
        if not run.branch(self.contains(run, x)):
            run.raise_("KeyError", x)
        run.write(self, "has", z3.Store(self.has, k, False))

    def truth(self, run):
        if getattr(self, "_memo", (None,))[0] is not None and self._memo[0].eq(self.has):
            return self._memo[1]
        b = z3.Bool(run.fresh_name(self.name + "_nonempty"))
        self._memo = (self.has, b)
        w = z3.Const(run.fresh_name(self.name + "_some_key"), V)
        run.assume(z3.Implies(b, self.H(w)))
        for p in run.hooks.get("points", lambda r: [])(run):
            run.assume(z3.Implies(self.H(p), b))
        return b

    def length(self, run):
        return run.fresh("len", "int").t

    def getattr(self, run, name):
        def get(r, a, k):
            if r.branch(self.contains(r, a[0])):
                return self.wrap(r, self.G(r.to_V(a[0])))
            return a[1] if len(a) > 1 else None

        def pop(r, a, k):
            if r.branch(self.contains(r, a[0])):
                v = self.wrap(r, self.G(r.to_V(a[0])))
                r.write(self, "has", z3.Store(self.has, r.to_V(a[0]), False))
                return v
            if len(a) > 1:
                return a[1]
            r.raise_("KeyError", a[0])

        def setdefault(r, a, k):
            if r.branch(self.contains(r, a[0])):
                return self.wrap(r, self.G(r.to_V(a[0])))
            self.setitem(r, a[0], a[1] if len(a) > 1 else None)
            return a[1] if len(a) > 1 else None

        f = {
            "get": get,
            "pop": pop,
            "setdefault": setdefault,
            "__delitem__": lambda r, a, k: self.delitem(r, a[0]),
            "__getitem__": lambda r, a, k: self.getitem(r, a[0]),
            "__setitem__": lambda r, a, k: self.setitem(r, a[0], a[1]),
            "__contains__": lambda r, a, k: SBool(self.contains(r, a[0])),
        }.get(name)
        if f:
            return Native("dict." + name, f)
        raise Unsupported(f"dict.{name} of an unbounded dict")


class SymHeap(Heap):
    """heapq list: multiset cnt[x]; pop gives a least element of order `le(a, b)` (z3), facts about it through on_pop"""

    kind = "list"

    def __init__(self, run, name, le, wrap=None, empty=False):
        self.cnt = z3.K(V, z3.IntVal(0)) if empty else z3.Const(run.fresh_name(name + "_cnt"), CntMap)
        self.name, self.le = name, le
        self.wrap = wrap or (lambda run, t: run.from_V(t))
        self.on_pop = lambda run, x: None
        self.cls = Ext("builtins.list", list)
        run.new(self)

    def locs(self):
        return {"cnt": self.cnt}

    def setloc(self, k, v):
        self.cnt = v

    def havoc(self, run):
        run.write(self, "cnt", z3.Const(run.fresh_name(self.name + "_cnt"), CntMap))

    def C(self, x):
        return z3.Select(self.cnt, x)

    def truth(self, run):
        if getattr(self, "_memo", (None,))[0] is not None and self._memo[0].eq(self.cnt):
            return self._memo[1]
        b = z3.Bool(run.fresh_name(self.name + "_nonempty"))
        self._memo = (self.cnt, b)
        w = z3.Const(run.fresh_name(self.name + "_some"), V)
        run.assume(z3.Implies(b, self.C(w) > 0))
        for p in run.hooks.get("points", lambda r: [])(run):
            run.assume(self.C(p) >= 0)
            run.assume(z3.Implies(self.C(p) > 0, b))
        return b

    def least(self, run):
        """the element heap[0] shows and heappop takes: the same one as long as the heap is unchanged"""
        if getattr(self, "_least", (None,))[0] is not None and self._least[0].eq(self.cnt):
            return self._least[1]
        x = z3.Const(run.fresh_name(self.name + "_least"), V)
        run.assume(self.C(x) > 0)
        for p in run.hooks.get("points", lambda r: [])(run):
            run.assume(z3.Implies(self.C(p) > 0, self.le(x, p)))
        self._least = (self.cnt, x)
        self.on_pop(run, x)
        return x

    def heappush(self, run, x):
        t = run.to_V(x)
        run.write(self, "cnt", z3.Store(self.cnt, t, self.C(t) + 1))

    def heappop(self, run):
        if not run.branch(self.truth(run)):
            run.raise_("IndexError", "index out of range")
        x = self.least(run)
        run.write(self, "cnt", z3.Store(self.cnt, x, self.C(x) - 1))
        return self.wrap(run, x)

    def heapify(self, run):
        return None

    def getitem(self, run, i):
        if i != 0:
            raise Unsupported("heap index")
        if not run.branch(self.truth(run)):
            run.raise_("IndexError", "index out of range")
        return self.wrap(run, self.least(run))

    def getattr(self, run, name):
        if name == "append":
            return Native("append", lambda r, a, k: r.raise_unsupported("append to a heap"))
        raise Unsupported(f"heap list .{name}")


class SymSet(Heap):
    """set of arbitrary contents: has[x].  Iterating it directly is iterating a sequence of its elements which must not change meanwhile"""

    kind = "set"

    def __init__(self, run, name, wrap=None):
        self.has = z3.Const(run.fresh_name(name + "_has"), HasMap)
        self.name = name
        self.wrap = wrap or (lambda run, t: run.from_V(t))
        self.cls = Ext("builtins.set", set)
        run.new(self)

    def locs(self):
        return {"has": self.has}

    def setloc(self, k, v):
        self.has = v

    def havoc(self, run):
        run.write(self, "has", z3.Const(run.fresh_name(self.name + "_has"), HasMap))

    def H(self, t):
        return z3.Select(self.has, t)

    def contains(self, run, x):
        return self.H(run.to_V(x))

    def as_seq(self, run):
        """a snapshot: the elements, each once, in any order"""
        s = run.fresh(self.name + "_elems", "seq")
        has = self.has
        for p in run.hooks.get("points", lambda r: [])(run):
            run.assume(z3.Select(has, p) == z3.Contains(s, z3.Unit(p)))

        def elem(r, t):
            r.assume(z3.Select(has, t))
            return self.wrap(r, t)

        return s, elem

    def truth(self, run):
        b = z3.Bool(run.fresh_name(self.name + "_nonempty"))
        for p in run.hooks.get("points", lambda r: [])(run):
            run.assume(z3.Implies(self.H(p), b))
        return b

    def length(self, run):
        b = self.truth(run)
        n = run.fresh("len", "int")
        run.assume(n.t >= 0)
        run.assume((n.t > 0) == b)
        return n.t

    def getattr(self, run, name):
        put = lambda r, x, v: r.write(self, "has", z3.Store(self.has, r.to_V(x), v))

        def remove(r, a, k):
            if not r.branch(self.contains(r, a[0])):
                r.raise_("KeyError", a[0])
            put(r, a[0], False)

        def snap(r, a, k):
            s, el = self.as_seq(r)
            return r.new(ListObj(seq=s, kind="tuple", elem=el))

        f = {"clear": lambda r, a, k: r.write(self, "has", z3.K(V, z3.BoolVal(False))), "add": lambda r, a, k: put(r, a[0], True), "discard": lambda r, a, k: put(r, a[0], False), "remove": remove, "copy": snap}.get(name)
        if f:
            return Native("set." + name, f)
        raise Unsupported(f"set.{name} of an unbounded set")
