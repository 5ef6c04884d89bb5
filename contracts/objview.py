"""Objects of a repository class as opaque terms: fields by ghost maps, methods from the source (inlined with the term as self)."""
from .common import *


class ObjModel:
    def __init__(self, clsq, fields, sets=None):
        self.clsq, self.fields, self.sets = clsq, fields, sets or {}

    def cls(self, run):
        return run.world.fn(self.clsq)

    def getattr(self, run, o, name):
        if name in self.fields:
            return self.fields[name](run, o)
        c = self.cls(run)
        if name == "__class__":
            return c
        a = run.class_attr(c, name)
        if a is UNSET:
            raise Unsupported(f"attribute {name} of an arbitrary {c.name}")
        if isinstance(a, Prop):
            return run.call(a.fget, [o], {})
        return run.bind(a, o)

    def setattr(self, run, o, name, v):
        if name in self.sets:
            return self.sets[name](run, o, v)
        raise Unsupported(f"store to {name} of an arbitrary {self.clsq}")

    def truth(self, run, o):
        c = self.cls(run)
        if run.class_attr(c, "__len__") is not UNSET:
            n = self.length(run, o)
            n = n.t if isinstance(n, SInt) else n
            return n > 0
        return True

    def length(self, run, o):
        return run.call(self.getattr(run, o, "__len__"), [], {})

    def isinstance(self, run, o, c):
        c = run.unwrap_cls(c)
        if isinstance(c, Cls):
            return run.subclass(self.cls(run), c)
        return False


class OrdQueue(Val):
    """a queue of distinct items as ghost maps: member[x] (and owner(x) == key), pos[x] (position order), qlen[key] (its length).
    hooks: queue_points -> items at which facts are wanted; queue_append(q, x, left), queue_pop(q, x)"""

    def __init__(self, gname, key, elem, owner=None, kind="collections.deque"):
        self.g, self.key, self.elem, self.owner = gname, key, elem, owner
        self.cls = Ext("collections.deque", __import__("collections").deque)

    def member(self, run, x):
        m = z3.Select(run.gget(self.g), x)
        return m if self.owner is None else z3.And(m, self.owner(x) == self.key)

    def pos(self, run, x):
        return z3.Select(run.gget(self.g + ".pos"), x)

    def n(self, run):
        return z3.Select(run.gget(self.g + ".len"), self.key)

    def points(self, run):
        return run.hooks.get("queue_points", lambda r: [])(run)

    def facts(self, run):
        run.assume(z3.And(self.n(run) >= 0, self.n(run) < 2**62))
        for p in self.points(run):
            run.assume(z3.Implies(self.member(run, p), self.n(run) > 0))

    def truth(self, run):
        self.facts(run)
        return self.n(run) > 0

    def length(self, run):
        self.facts(run)
        return self.n(run)

    def contains(self, run, x):
        return self.member(run, run.to_V(x))

    def setlen(self, run, d):
        run.gset(self.g + ".len", z3.Store(run.gget(self.g + ".len"), self.key, self.n(run) + d))

    def take(self, run, x):
        self.setlen(run, -1)
        run.gset(self.g, z3.Store(run.gget(self.g), x, False))

    def end(self, run, left):
        if not run.branch(zbool(self.truth(run))):
            run.raise_("IndexError", "pop from an empty deque")
        x = run.fresh("popped").t
        run.assume(V.is_opq(x))
        run.assume(self.member(run, x))
        for p in self.points(run):
            o = self.pos(run, x) < self.pos(run, p) if left else self.pos(run, x) > self.pos(run, p)
            run.assume(z3.Implies(self.member(run, p), z3.Or(p == x, o)))
        h = run.hooks.get("queue_pop")
        if h:
            h(run, self, x)
        return x

    def put(self, run, x, left):
        run.prove(z3.Not(z3.Select(run.gget(self.g), x)), "an item is queued once")
        pos = z3.Int(run.fresh_name("pos"))
        for p in self.points(run):
            run.assume(z3.Implies(self.member(run, p), pos < self.pos(run, p) if left else pos > self.pos(run, p)))
        h = run.hooks.get("queue_append")
        if h:
            h(run, self, x, left)
        run.gset(self.g, z3.Store(run.gget(self.g), x, True))
        run.gset(self.g + ".pos", z3.Store(run.gget(self.g + ".pos"), x, pos))
        self.setlen(run, 1)

    def getattr(self, run, name):
        def pop(r, a, k):
            left = bool(a) and a[0] == 0
            if a and a[0] not in (0, -1):
                raise Unsupported("pop index")
            x = self.end(r, left)
            self.take(r, x)
            return self.elem(r, x)

        def popleft(r, a, k):
            x = self.end(r, True)
            self.take(r, x)
            return self.elem(r, x)

        def remove(r, a, k):
            x = r.to_V(a[0])
            if not r.branch(self.member(r, x)):
                r.raise_("ValueError", "deque.remove(x): x not in deque")
            self.facts(r)
            r.assume(self.n(r) > 0)
            self.take(r, x)

        f = {
            "append": lambda r, a, k: self.put(r, r.to_V(a[0]), False), "appendleft": lambda r, a, k: self.put(r, r.to_V(a[0]), True),
            "popleft": popleft, "pop": pop, "remove": remove,
        }.get(name)
        if f:
            return Native("deque." + name, f)
        raise Unsupported(f"deque.{name}")

    def getitem(self, run, i):
        if i not in (0, -1):
            raise Unsupported("queue index")
        return self.elem(run, self.end(run, i == 0))


MemMap = z3.ArraySort(V, z3.BoolSort())
PosMap = z3.ArraySort(V, z3.IntSort())


def fresh_queue(run, g):
    for suf, sort in (("", MemMap), (".pos", PosMap), (".len", PosMap)):
        run.gset(g + suf, z3.Const(run.fresh_name(g + suf), sort))


def instantiate(run, fact, p, *xs):
    """fact(p), p an arbitrary constant, holds here: so it holds at x"""
    t = fact(p)
    if run.holds(t):
        for x in xs:
            run.assume(fact(x))
        return True
    return False
