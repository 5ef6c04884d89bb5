"""Task mappings of any number of keys, known at one generic key g.

What is tracked is the state at g: whether g is in the mapping, which task it has, whether that is done, whether g was handed to the consumer.
Every other key is some other key: it is in or not in any collection, and its elements come before or after g's.  What is proven of g holds of
every key, as g is any one of them; state at g changes only through operations on g (dicts and sets, trusted).

A loop over keys runs, at an arbitrary iteration, for g (if it is in the collection and was not given yet) or for another key; it ends when g is not
pending.  Loop invariants are implications between the flags at g, found by elimination (cut_loop)."""
import itertools

from .common import *

FLAGS_G = ("has", "popped", "delivered")


def B(run, n):
    return zbool(run.gget(n).t)


def setb(run, n, t):
    run.gset(n, SBool(zbool(t)))


def kinit(run):
    """a mapping with any keys, some of whose tasks may be done; nothing delivered or popped yet"""
    k = Keys(run)
    run.keys = k
    k.g = run.fresh("g")
    for n in ("has", "done", "ld"):
        run.gset(n, SBool(run.fresh(n, "bool").t))
    for n in ("popped", "delivered"):
        run.gset(n, SBool(z3.BoolVal(False)))
    run.gset("task", run.fresh("task_g").t)
    run.gset("ptask", run.fresh("popped_task").t)
    run.gset("ver", SInt(run.fresh("ver", "int").t))
    k.insource = run.fresh("in_source", "bool").t
    k.lfail = run.fresh("loader_fails", "bool").t
    k.loader = False
    facts(run)
    return k


def facts(run):
    k = run.keys
    if k.loader:
        run.assume(z3.Implies(z3.And(B(run, "ld"), z3.Not(k.lfail), k.insource), z3.Or(B(run, "has"), B(run, "popped"))))


class Keys:
    def __init__(self, run):
        self.known = []  # other keys known to be in the mapping

    def other(self, run):
        o = run.fresh("other")
        run.assume(o.t != self.g.t)
        return o

    def knows(self, t):
        return any(x.eq(t) for x in self.known)


def isg(run, x):
    t = run.to_V(x) == run.keys.g.t
    return run.branch(t)


def interfere(run, may_pop=False):
    """what other tasks do meanwhile: keys are loaded or asked for, tasks end, the loader ends.  Nobody else pops (assumption), unless may_pop:
    the consumer pops what it was given.  A key that was popped is not asked for again (assumption)"""
    has, done, ld = B(run, "has"), B(run, "done"), B(run, "ld")
    h2 = run.fresh("has", "bool").t
    task = run.gget("task")
    t2 = run.fresh("task_g").t
    if may_pop:
        p2 = run.fresh("popped", "bool").t
        run.assume(z3.Implies(p2, z3.Or(B(run, "popped"), B(run, "delivered"))))
        run.assume(z3.Implies(B(run, "popped"), p2))
        setb(run, "popped", p2)
        run.assume(z3.Implies(has, z3.Or(h2, p2)))
    else:
        run.assume(z3.Implies(has, h2))
    run.assume(z3.Implies(h2, z3.Not(B(run, "popped"))))
    d2, l2 = run.fresh("done", "bool").t, run.fresh("ld", "bool").t
    run.assume(z3.Implies(z3.And(has, h2, done), d2))
    run.assume(z3.Implies(ld, l2))
    setb(run, "has", h2)
    setb(run, "done", d2)
    setb(run, "ld", l2)
    run.gset("task", z3.If(has, task, t2))
    if may_pop:
        run.gset("ptask", z3.If(z3.And(has, z3.Not(h2)), task, run.gget("ptask")))
    v2 = run.fresh("ver", "int").t
    run.gset("ver", SInt(v2))
    facts(run)


FAILS = z3.Function("task_fails", V, z3.BoolSort())
RET = z3.Function("task_ret", V, V)
ERR = z3.Function("task_err", V, V)


class KTask:
    """a key's task: one outcome"""

    def truth(self, run, o):
        return True

    def isawaitable(self, run, o):
        return True

    def finished(self, run, o):
        return z3.And(o.t == run.gget("task"), B(run, "has"), B(run, "done"))

    def getattr(self, run, o, name):
        if name == "done":

            def done(r, a, k):
                x = r.fresh("done", "bool").t
                r.assume(z3.Implies(z3.And(o.t == r.gget("task"), B(r, "has")), x == B(r, "done")))
                return SBool(x)

            return Native(name, done)
        if name == "cancel":
            return Native(name, lambda r, a, k: r.event("cancel", o) or True)
        if name == "add_done_callback":
            return Native(name, lambda r, a, k: r.event("add_done_callback", o, a[0]))
        if name == "result":

            def result(r, a, k):
                if not r.branch(self.finished(r, o)):
                    r.raise_("InvalidStateError", "Result is not set.")
                return self.settle(r, o)

            return Native(name, result)
        return UNSET

    def settle(self, run, o):
        if run.branch(FAILS(o.t)):
            e = run.keys.errors.get(o.t.get_id()) if hasattr(run.keys, "errors") else None
            if e is None:
                e = run.fresh_exc("task_error")
                run.assume(run.to_V(e) == ERR(o.t))
                no = run.hooks.get("task_error")
                if no:
                    no(run, e)
            run.event("task failed", o, e)
            raise PyExc(e)
        r = SV(RET(o.t))
        r.owner = getattr(o, "owner", None)  # whose result it is
        return r

    def await_(self, run, o):
        run.rely()
        r = self.settle(run, o)
        setb(run, "done", z3.Or(B(run, "done"), z3.And(o.t == run.gget("task"), B(run, "has"))))
        return r


KTASK = KTask()


def g_task(run):
    t = SV(run.gget("task"))
    t.model, t.owner = KTASK, "g"
    return t


def other_task(run):
    t = run.fresh("other_task")
    t.model, t.owner = KTASK, "another"
    return t


# ---------------------------------------------------------------------------------------------------------------- collections
class KColl(Heap):
    """list / tuple / dict / generator over keys.  bit: it has an element of g (as made); vg: that element; others: None or an element of another key.
    A dict's elements are (key, value)"""

    def __init__(self, run, kind, bit, vg, others, order="any"):
        self.kind0, self.bit, self.vg, self.others = kind, bit, vg, others
        self.kind = "kcoll"
        self.cls = {"list": Ext("builtins.list", list), "tuple": Ext("builtins.tuple", tuple), "dict": Ext("builtins.dict", dict), "set": Ext("builtins.set", set)}.get(kind, Ext("builtins.object", object))
        run.new(self)

    def locs(self):
        return {}

    def truth(self, run):
        if self.others is None:
            return zbool(self.bit)
        if not hasattr(self, "obit"):
            self.obit = run.fresh("others", "bool").t
        return z3.Or(zbool(self.bit), self.obit)

    def length(self, run):
        n = run.fresh("len", "int").t
        run.assume(z3.And(n >= 0, (n > 0) == zbool(self.truth(run))))
        return n

    def elem_g(self, run):
        return self.vg() if callable(self.vg) else self.vg

    def elem_o(self, run):
        return self.others() if callable(self.others) else self.others

    def cursor_elem(self, run, x):
        return x[0] if self.kind0 == "dict" else x

    def iterator(self, run, *_):
        return KCursor(self)

    def copy_as(self, run, kind):
        if self.kind0 == "dict" and kind != "dict":
            d = self
            return KColl(run, kind, self.bit, lambda: d.elem_g(run)[0], None if self.others is None else (lambda: d.elem_o(run)[0]))
        if kind == "set":
            return KSet(run, self.bit)
        return KColl(run, kind, self.bit, self.vg, self.others)

    def contains(self, run, x):
        if self.kind0 == "dict" or self.kind0 == "set":
            return zbool(self.bit) if isg(run, x) else run.fresh("among_others", "bool").t
        if not run.branch(zbool(self.bit)):
            return run.fresh("among_others", "bool").t
        t = run.same(self.elem_g(run), x)
        return True if run.branch(zbool(t)) else run.fresh("among_others", "bool").t

    def getitem(self, run, x):
        if self.kind0 != "dict":
            raise Unsupported("indexing keys")
        if isg(run, x):
            if run.branch(zbool(self.bit)):
                return self.elem_g(run)[1]
            run.raise_("KeyError", x)
        if self.others is None:
            run.raise_("KeyError", x)
        o = self.elem_o(run)
        if run.branch(run.to_V(o[0]) == run.to_V(x)):
            return o[1]
        raise Unsupported("another key's entry")

    def getattr(self, run, name):
        if self.kind0 == "dict" and name in ("items", "keys", "values"):
            i = {"items": None, "keys": 0, "values": 1}[name]
            f = lambda x: x if i is None else x[i]
            d = self
            return Native(name, lambda r, a, k: KColl(r, "view", d.bit, lambda: f(d.elem_g(r)), None if d.others is None else (lambda: f(d.elem_o(r)))))
        return UNSET


class KCursor:
    """every element once, in any order; live: over the mapping itself, which must not change in size meanwhile"""

    def __init__(self, coll, live=False, get=None, get_o=None):
        self.c, self.live = coll, live
        self.get = get or (lambda run: coll.cursor_elem(run, coll.elem_g(run)))
        self.get_o = get_o or (lambda run: coll.cursor_elem(run, coll.elem_o(run)))

    def begin(self, run):
        self.st = run.new(Obj(Ext("builtins.object", object)))
        self.bit0 = zbool(self.c.bit)
        run.write(self.st, "given", SBool(z3.BoolVal(False)))
        # the body may change it: it is part of what the loop havocs
        self.ver0 = run.gget("ver").t

    def given(self):
        return zbool(self.st.fields["given"].t) if isinstance(self.st.fields["given"], SBool) else zbool(self.st.fields["given"])

    def pending(self):
        return z3.And(self.bit0, z3.Not(self.given()))

    def havoc(self, run):
        run.write(self.st, "given", SBool(run.fresh("given", "bool").t))

    def candidates(self, run):
        for n, f in flag_terms(run):
            for pos in (True, False):
                p = (lambda f=f, pos=pos: f() if pos else z3.Not(f()))
                yield f"pending -> {n}={pos}", lambda p=p: z3.Implies(self.pending(), p())
                yield f"given -> {n}={pos}", lambda p=p: z3.Implies(self.given(), p())
        for i, s in enumerate(run.keys.sets):
            yield f"pending and delivered -> set{i}", lambda s=s: z3.Implies(z3.And(self.pending(), B(run, "delivered")), zbool(s.bit))
            yield f"pending -> has or set{i}", lambda s=s: z3.Implies(self.pending(), z3.Or(B(run, "has"), zbool(s.bit)))
        yield "given and done at first -> delivered", lambda: z3.Implies(z3.And(self.given(), run.keys.done0), B(run, "delivered"))
        yield "has -> in it", lambda: z3.Implies(B(run, "has"), self.bit0)
        yield "given -> in it", lambda: z3.Implies(self.given(), self.bit0)
        x = self.vtask(run)
        if x is not None:
            yield "pending -> its task is the entry's", lambda: z3.Implies(z3.And(self.pending(), B(run, "has")), run.gget("task") == x)
            yield "pending -> its task is the entry's, popped or not", lambda: z3.Implies(self.pending(), run.gget("task") == x)
        yield "same size", lambda: run.gget("ver").t == self.ver0

    def vtask(self, run):
        try:
            v = self.c.elem_g(run)
        except Exception:
            return None
        for x in v if isinstance(v, tuple) else (v,):
            if isinstance(x, SV) and x.model is KTASK:
                return x.t
        return None

    def more(self, run):
        if self.live and not run.branch(run.gget("ver").t == self.ver0):
            run.raise_("RuntimeError", "dictionary changed size during iteration")
        pending = run.branch(self.pending())
        some = self.c.others is not None
        if pending:
            self.turn = ("g" if not some else ("g", "another")[run.fork("g's turn", "another key's turn")])
        else:
            self.turn = ("end" if not some else ("end", "another")[run.fork("no more keys", "another key's turn")])
        if self.turn == "end":
            return False
        if self.turn == "g":
            run.write(self.st, "given", SBool(z3.BoolVal(True)))
            self.x = self.get(run)
        else:
            self.x = self.get_o(run)
        return True

    def element(self, run):
        return self.x

    def advance(self, run):
        pass

    finish = advance


def flag_terms(run):
    for n in FLAGS_G:
        yield n, lambda n=n: B(run, n)
    for i, s in enumerate(run.keys.sets):
        yield f"set{i}", lambda s=s: zbool(s.bit)


class KSet(Heap):
    kind = "kset"

    def __init__(self, run, bit):
        self.bit = zbool(bit) if not isinstance(bit, bool) else z3.BoolVal(bit)
        self.cls = Ext("builtins.set", set)
        run.new(self)
        run.keys.sets.append(self)

    def locs(self):
        return {"bit": SBool(self.bit)}

    def setloc(self, k, v):
        self.bit = v.t if isinstance(v, SBool) else z3.BoolVal(v)

    def contains(self, run, x):
        return self.bit if isg(run, x) else run.fresh("among_others", "bool").t

    def truth(self, run):
        return z3.Or(self.bit, run.fresh("others", "bool").t)

    def length(self, run):
        n = run.fresh("len", "int").t
        run.assume(z3.And(n >= 0, z3.Implies(self.bit, n > 0)))
        return n

    def put(self, run, x, v):
        if isg(run, x):
            run.write(self, "bit", SBool(z3.BoolVal(v)))

    def iterator(self, run, *_):
        return self.copy_as(run, "list").iterator(run)

    def copy_as(self, run, kind):
        if kind == "set":
            return KSet(run, self.bit)
        k = run.keys
        return KColl(run, kind, self.bit, k.g, lambda: k.other(run))

    def getattr(self, run, name):
        def update(r, a, k):
            for c in a:
                for x in r.concrete_iter(c) or ():
                    self.put(r, x, True)
                if isinstance(c, (KSet, KColl)):
                    r.write(self, "bit", SBool(z3.Or(self.bit, zbool(c.bit))))

        f = {"add": lambda r, a, k: self.put(r, a[0], True), "discard": lambda r, a, k: self.put(r, a[0], False), "remove": lambda r, a, k: self.put(r, a[0], False), "update": update}.get(name)
        return Native("set." + name, f) if f else UNSET


class Storage(Heap):
    """the mapping's own entries"""

    kind = "kstorage"
    cls = Ext("builtins.dict", dict)

    def __init__(self, run, nonpop_others=True):
        run.new(self)

    bit = property(lambda self: B(self.run, "has"))

    def locs(self):
        return {}

    def truth(self, run):
        return z3.Or(B(run, "has"), run.fresh("others", "bool").t)

    def length(self, run):
        n = run.fresh("len", "int").t
        run.assume(z3.And(n >= 0, z3.Implies(B(run, "has"), n > 0)))
        return n

    def snapshot(self, run, kind):
        k = run.keys
        task = g_task(run)
        o, ot = k.other(run), other_task(run)
        k.known.append(o.t)
        return KColl(run, "dict", B(run, "has"), (k.g, task), (o, ot)).copy_as(run, kind)

    def copy_as(self, run, kind):
        return self.snapshot(run, kind)

    def contains(self, run, x):
        return B(run, "has") if isg(run, x) else run.fresh("among_others", "bool").t

    def iterator(self, run, *_):
        return KCursor(self.snapshot(run, "list"), live=True)

    def getitem(self, run, x):
        if isg(run, x):
            if run.branch(B(run, "has")):
                return g_task(run)
        elif run.keys.knows(run.to_V(x)) or run.fork("present", "absent") == 0:
            return other_task(run)
        run.raise_("KeyError", x)

    def setitem(self, run, x, v):
        run.gset("ver", SInt(run.gget("ver").t + 1))
        if isg(run, x):
            run.event("stored", v)
            setb(run, "has", z3.BoolVal(True))
            setb(run, "done", run.fresh("done", "bool").t)
            run.gset("task", run.to_V(v))

    def delitem(self, run, x):
        run.call(self.getattr(run, "pop"), [x], {})

    def pop(self, run, a):
        if isg(run, a[0]):
            if run.branch(B(run, "has")):
                t = g_task(run)
                setb(run, "has", z3.BoolVal(False))
                setb(run, "popped", z3.BoolVal(True))
                run.gset("ptask", run.gget("task"))
                run.gset("ver", SInt(run.gget("ver").t + 1))
                return t
        elif run.keys.knows(run.to_V(a[0])) or run.fork("present", "absent") == 0:
            t = run.to_V(a[0])
            run.keys.known = [x for x in run.keys.known if not x.eq(t)]
            run.gset("ver", SInt(run.gget("ver").t + 1))
            return other_task(run)
        if len(a) > 1:
            return a[1]
        run.raise_("KeyError", a[0])

    def getattr(self, run, name):
        s = self
        f = {
            "__getitem__": lambda r, a, k: s.getitem(r, a[0]),
            "__setitem__": lambda r, a, k: s.setitem(r, a[0], a[1]),
            "__delitem__": lambda r, a, k: s.delitem(r, a[0]),
            "__contains__": lambda r, a, k: SBool(zbool(s.contains(r, a[0]))),
            "__len__": lambda r, a, k: SInt(s.length(r)),
            "pop": lambda r, a, k: s.pop(r, a),
            "get": lambda r, a, k: s.getitem(r, a[0]) if r.branch(zbool(s.contains(r, a[0]))) else (a[1] if len(a) > 1 else None),
            "keys": lambda r, a, k: LiveView(s, 0),
            "values": lambda r, a, k: LiveView(s, 1),
            "items": lambda r, a, k: LiveView(s, None),
            "copy": lambda r, a, k: s.snapshot(r, "dict"),
        }.get(name)
        return Native("dict." + name, f) if f else UNSET


class LiveView(Val):
    """dict.keys() / values() / items() of the mapping"""

    def __init__(self, s, i):
        self.s, self.i = s, i

    def truth(self, run):
        return self.s.truth(run)

    def length(self, run):
        return self.s.length(run)

    def contains(self, run, x):
        if self.i != 0:
            raise Unsupported("membership in values")
        return self.s.contains(run, x)

    def copy_as(self, run, kind):
        d = self.s.snapshot(run, "dict")
        f = lambda x: x if self.i is None else x[self.i]
        return KColl(run, kind, d.bit, f(d.vg), None if d.others is None else f(d.others))

    def iterator(self, run, *_):
        return KCursor(self.copy_as(run, "list"), live=True)


def keyed_comp(run, e, fr, f2, first, kind):
    """a comprehension over keys: its element at g, and at some other key"""
    if isinstance(first, Obj) and isinstance(first.fields.get("#dict"), Storage):
        first = first.fields["#dict"]
    if isinstance(first, Gen) or not isinstance(first, (KColl, KSet, Storage, LiveView)):
        return UNSET
    if len(e.generators) != 1 or e.generators[0].is_async:
        raise Unsupported("nested comprehension over keys")
    g = e.generators[0]
    live = isinstance(first, (Storage, LiveView))
    src = first if isinstance(first, KColl) else first.copy_as(run, "list")
    ver = run.gget("ver").t

    def at(x):
        run.assign_comp(g.target, src.cursor_elem(run, x), f2)
        for c in g.ifs:
            if not run.truth(run.ev(c, f2)):
                return UNSET
        if kind == "dict":
            k = run.ev(e.key, f2)
            return (k, run.ev(e.value, f2))
        return run.ev(e.elt, f2)

    vg = at(src.elem_g(run)) if run.branch(zbool(src.bit)) else UNSET
    others = at(src.elem_o(run)) if src.others is not None else UNSET
    if live and not run.branch(run.gget("ver").t == ver):
        run.raise_("RuntimeError", "dictionary changed size during iteration")
    if kind == "set":
        raise Unsupported("set comprehension over keys")
    if kind == "dict":
        if vg is not UNSET:
            run.prove(run.same(vg[0], run.keys.g), "every entry is under its own key")
    mk = type(first) if isinstance(first, KColl) else KColl
    return mk(run, kind, z3.BoolVal(vg is not UNSET), None if vg is UNSET else vg, None if others is UNSET else others)


def pairs(run, extra=()):
    """candidate invariants: implications between two flags at g"""
    ts = list(flag_terms(run)) + list(extra)
    for (n, f), (m, h) in itertools.permutations(ts, 2):
        if n < m:
            yield f"{n} or {m}", lambda f=f, h=h: z3.Or(f(), h())
            yield f"not {n} or not {m}", lambda f=f, h=h: z3.Or(z3.Not(f()), z3.Not(h()))
        yield f"{n} -> {m}", lambda f=f, h=h: z3.Implies(f(), h())
    for n, f in ts:
        yield n, f
        yield "not " + n, lambda f=f: z3.Not(f())
    yield "there at first -> has or popped", lambda: z3.Implies(run.keys.has0, z3.Or(B(run, "has"), B(run, "popped")))
    for i, c in enumerate(run.keys.outer):
        yield f"given by {i} -> there or popped", lambda c=c: z3.Implies(c.given(), z3.Or(B(run, "has"), B(run, "popped")))
        yield f"given by {i} -> there or delivered", lambda c=c: z3.Implies(c.given(), z3.Or(B(run, "has"), B(run, "delivered")))
    yield "done at first and there -> done", lambda: z3.Implies(z3.And(run.keys.done0, B(run, "has")), B(run, "done"))
    yield "there at first -> has or delivered", lambda: z3.Implies(run.keys.has0, z3.Or(B(run, "has"), B(run, "delivered")))


def install_keys(run):
    run.keys.sets, run.keys.outer = [], []
    run.hooks["new_set"] = lambda r: KSet(r, False)
    run.hooks["keyed_comp"] = keyed_comp
    run.hooks["unset_dead"] = True
    run.keys.has0 = B(run, "has")
    run.keys.done0 = z3.And(B(run, "has"), B(run, "done"))
