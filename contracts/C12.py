"""Priority and smart processing queues, over C11's worker.

Priority: what is put, and what _get makes of the very entry that was put, are checked together: the worker gets the caller's arguments and the
future that was returned, whatever the entry looks like.  Of any two entries, put in any order with anything put in between, the one with the
better priority is less, and the earlier one at equal priorities, and arguments are never compared.  heapq.heappop gives a least entry (trusted).
Smart: a pending registered future is returned and nothing is put; otherwise a new one is made, registered under the key and put with the
caller's arguments.  The key says the arguments and the keywords, in no order, and nothing else."""
import heapq
import itertools

from . import C11
from .C11 import *
from .C21 import FutState
from .tasks import the_loop
from pyvc.coll import GColl, GDict, GMap, ghost_of
from pyvc.engine import coll

M = Q + "_PriorityQueueMixin."
PP = Q + "PriorityProcessingQueue."
SM = Q + "SmartProcessingQueue."
S_ = "a_sync._smart:"


class Count(Val):
    """itertools.count: a new number, greater than all before, each time"""

    def __init__(self, run):
        self.n = run.fresh("first_number", "int").t

    def truth(self, run):
        return True

    def next(self, run):
        r = SInt(self.n)
        self.n = self.n + 1
        run.event("number", r)
        return r

    def others(self, run):
        m = run.fresh("number", "int").t
        run.assume(m >= self.n)
        self.n = m

    def getattr(self, run, name):
        return Native(name, lambda r, a, k: self.next(r)) if name == "__next__" else UNSET


class HeapQ(Val):
    """the queue's heap: anything may be in it; entry: the one heappop finds least"""

    def __init__(self):
        self.pushed = []
        self.least = None
        self.ordered = True
        self.cls = Ext("builtins.list", list)

    def truth(self, run):
        return True

    def heappush(self, run, x):
        run.event("push", x)
        self.pushed.append(x)

    def append(self, run, x):
        self.heappush(run, x)
        self.ordered = False

    def heapify(self, run):
        self.ordered = True

    def getitem(self, run, k):
        return Entry(self)

    def heappop(self, run):
        run.event("pop")
        run.prove(self.ordered, "the heap is in order when the least is taken")
        if self.least is None:
            raise Unsupported("pop of any entry")
        x, self.least = self.least, None
        return x

    def getattr(self, run, name):
        if name == "append":
            return Native(name, lambda r, a, k: self.append(r, a[0]))
        return UNSET


class Entry(Val):
    """one that is in the heap"""

    def __init__(self, heap):
        self.heap = heap

    def order(self, run, op, o):
        return run.fresh("order_of_entries", "bool")


def fields_of(run, t):
    """of an entry"""
    if isinstance(t, tuple):
        return list(t)
    if isinstance(t, ListObj) and t.items is not None:
        return list(t.items)
    raise Unsupported(f"entry {t!r}")


def less(run, a, b, opaque):
    """a < b as tuples compare; opaque: what must never be compared"""
    if isinstance(a, Obj) and isinstance(b, Obj):
        return zbool(run.truth_term(run.compare_lt(a, b)))
    x, y = fields_of(run, a), fields_of(run, b)
    for u, v in zip(x, y):
        if any(u is o or v is o for o in opaque) or isinstance(u, (DictObj, GDict, StarTuple)):
            run.prove(False, "arguments are never compared with each other")
            return False
        if isinstance(u, tuple) and isinstance(v, tuple):
            raise Unsupported("nested tuples in an entry")
        if isinstance(u, Obj) and isinstance(v, Obj):  # references: equal only if they refer to the same
            tu, tv = u.fields.get("#target"), v.fields.get("#target")
            if tu is not None and tu is tv or u is v:
                continue
            return run.truth(run.call(run.getattr_(u, "__lt__"), [v], {}))
        e = run.truth(SBool(u.t == v.t)) if isinstance(u, SInt) and isinstance(v, SInt) else run.truth(run.eq(u, v))
        if not e:
            if isinstance(u, SInt) and isinstance(v, SInt):
                return run.truth(SBool(u.t < v.t))
            raise Unsupported(f"order of {u!r} and {v!r}")
    run.prove(False, "two entries differ before their arguments are compared")
    return False


class Case(Contract):
    kind = "PriorityProcessingQueue"

    def setup(self, run, data=True):
        rest_has_no_flags(run)
        self.F = F = FutState(run)
        F.install()
        run.hooks["points"] = lambda r: []
        future_ext = run.hooks["ext_call"]
        cls = run.world.fn(Q + self.kind)
        q = self.q = run.new(Obj(cls))
        f = q.fields
        f["func"] = Func(self)
        f["_no_futs"] = not data
        f["_name"] = "name"
        f["num_workers"] = run.fresh("num_workers", "int")
        f["_unfinished_tasks"] = run.fresh("unfinished", "int")
        f["_loop"] = None
        self.closed = run.fork("open", "closed") == 1
        if self.closed:
            f["_closed"] = True
        self.w = f["_workers"] = Workers(run)
        self.puts, self.futs, self.dead = [], [], set()
        self.heap = HeapQ()
        run.hooks["weakref_proxy"] = lambda r, a: a[0]
        run.hooks["weakref_dead"] = lambda r, o: id(o) in self.dead
        run.hooks["loop_running"] = True

        def create(r, loop, a, k):
            x = NewFut(loop)
            self.futs.append(x)
            return x

        run.hooks["loop_create_future"] = create

        def ext_call(r, f, a, k):
            leaf, own = f.path.split(".")[-1], f.path.split(".")[-2:-1]
            if own and own[0] in ("Queue", "_Queue") and a and a[0] is q and leaf == "put_nowait":
                self.puts.append(a[1])
                return r.call(r.getattr_(q, "_put"), [a[1]], {})
            if f.pyobj is itertools.count:
                r.prove(not a and not k, "numbers are counted one by one")
                return Count(r)
            if leaf == "WeakValueDictionary":
                return FutMap(self)
            return future_ext(r, f, a, k)

        run.hooks["ext_call"] = ext_call
        sup = F.sup
        run.hooks["super"] = lambda r, s, name, exts: to_external(r, s, name, exts) if s.o is q else sup(r, s, name, exts)
        return q

    def refused(self, run, out):
        if self.closed:
            run.cover("closed")
            prove_exc(run, out, "RuntimeError", "a closed queue takes nothing")
        elif self.w.broken is not None:
            run.cover("broken")
            prove_outcome(run, out, ("exc", self.w.broken), "what broke the workers is raised")
        else:
            return False
        run.prove(self.puts == [] and self.heap.pushed == [], "nothing is put")
        return True

    def call(self, run, how, args, kwargs):
        q = self.q
        call = (lambda: run.call(q, args, kwargs)) if how == "call" else (lambda: run.call(run.getattr_(q, how), args, kwargs))
        return outcome_of(run, (lambda: run.await_(call())) if how == "put" else call)

    def taken(self, run, entry):
        """what a worker gets when entry is the least"""
        self.heap.least = entry
        out = outcome_of(run, lambda: run.call(run.getattr_(self.q, "_get"), [], {}))
        run.prove(out[0] == "ret", "taking the item does not fail")
        return fields_of(run, out[1]) if out[0] == "ret" else []


def given(a):
    return list((*a.prefix, StarArgs(a.seq)) if isinstance(a, StarTuple) else tuple(a))


class Priority(Case):
    functions = [PP + n for n in ("_init", "put", "put_nowait", "_get")] + [M + n for n in ("_init", "_put")] + [PQ + n for n in ("__call__", "_ensure_workers", "_create_future")]
    assumes = (
        "asyncio.Queue: put_nowait without maxsize puts with _put, get takes with _get",
        "heapq: heappop removes a least entry, entries compare as tuples do",
        "priorities are totally ordered",
        "itertools.count gives 0, 1, 2, ...",
    )
    must_cover = ("put", "closed", "broken", "better", "equal", "worse")

    def __init__(self, how, data):
        self.how, self.data = how, data
        self.name = f"priority: {how}, {'with' if data else 'without'} results"

    def run(self, run):
        q = self.setup(run, self.data)
        out = outcome_of(run, lambda: run.call(run.getattr_(q, "_init"), [0], {}))
        run.prove(out[0] == "ret", "a queue is made")
        l = q.fields.get("_queue")
        run.prove(isinstance(l, ListObj) and l.items == [], "a new queue is empty")
        counters = [v for v in q.fields.values() if isinstance(v, Count)]
        q.fields["_queue"] = self.heap  # from here: any queue, any number so far
        for c in counters:
            c.others(run)
        done = []
        for i in range(2):
            p = run.fresh(f"priority{i}", "int")
            args, kwargs, check = sym_call_args(run)
            out = self.call(run, self.how, [p] + args, kwargs)
            if self.refused(run, out):
                return
            run.prove(out[0] == "ret", "an open queue takes it")
            if out[0] != "ret":
                return
            ok = len(self.heap.pushed) == i + 1
            run.prove(ok, "one entry is put into the queue")
            if not ok:
                return
            if self.data:
                run.prove(len(self.futs) == i + 1 and out[1] is self.futs[i], "a new future is returned")
            else:
                run.prove(out[1] is None and not self.futs, "nothing is returned")
            done.append((p, self.heap.pushed[i], args, check, out[1]))
            for c in counters:
                c.others(run)
        run.cover("put")
        (p, e, args, check, fut), (p2, e2, *_) = done
        opaque = [x for d in done for x in d[2]]
        o = outcome_of(run, lambda: less(run, e, e2, opaque))
        if o[0] == "ret":
            run.cover("equal" if run.branch(p.t == p2.t) else "better" if run.branch(p.t < p2.t) else "worse")
            run.prove(z3.BoolVal(bool(o[1])) == (p.t <= p2.t), "better priorities first, equal ones in the order of submission")
            o2 = outcome_of(run, lambda: less(run, e2, e, opaque))
            run.prove(o2[0] == "ret" and bool(o2[1]) is (not o[1]), "the order is strict")
        else:
            run.prove(False, "comparing two entries does not fail")
        item = self.taken(run, e)
        ok = len(item) == (3 if self.data else 2)
        run.prove(ok, "a worker gets arguments, keywords and, if there are results, the future")
        if ok:
            check(run, given(item[0]), kw_of(run, item[1]), "the very arguments of the item")
            if self.data:
                run.prove(item[2] is fut, "the future of the item is the one returned for it")


class FutMap(Val):
    """the registered futures, as far as the submission at hand goes; of others' keys nothing is known, or wanted"""

    def __init__(self, c):
        self.c = c
        self.at = None
        self.keys = []
        self.cls = Ext("weakref.WeakValueDictionary", __import__("weakref").WeakValueDictionary)

    def truth(self, run):
        return run.fresh("any_futures", "bool").t

    def key(self, run, k):
        self.keys.append(k)
        if hasattr(self.c, "good_key"):
            self.c.good_key(run, k)

    def getitem(self, run, k):
        self.key(run, k)
        if self.at is None:
            run.raise_("KeyError")
        return self.at

    def contains(self, run, k):
        self.key(run, k)
        return self.at is not None

    def setitem(self, run, k, v):
        self.key(run, k)
        run.event("registered", v)
        self.at = v

    def delitem(self, run, k):
        self.key(run, k)
        if self.at is None:
            run.raise_("KeyError")
        self.at = None

    def get(self, run, a, k):
        self.key(run, a[0])
        return self.at if self.at is not None else (a[1] if len(a) > 1 else k.get("default"))

    def pop(self, run, a, k):
        self.key(run, a[0])
        if self.at is None:
            if len(a) > 1:
                return a[1]
            run.raise_("KeyError")
        x, self.at = self.at, None
        return x

    def setdefault(self, run, a, k):
        self.key(run, a[0])
        if self.at is None:
            self.setitem(run, a[0], a[1])
        return self.at

    def getattr(self, run, name):
        if name in ("get", "pop", "setdefault"):
            return Native(name, getattr(self, name))
        for n, f in (("__getitem__", self.getitem), ("__contains__", self.contains), ("__setitem__", self.setitem), ("__delitem__", self.delitem)):
            if n == name:
                return Native(n, lambda r, a, k: f(r, *a))
        return UNSET


class Smart(Case):
    kind = "SmartProcessingQueue"
    functions = [SM + n for n in ("put", "put_nowait", "_create_future", "_get")] + [Q + "_VariablePriorityQueueMixin." + n for n in ("_get", "_get_key")] + [M + "_put", PQ + "__call__", PQ + "_ensure_workers"]
    functions += [S_ + n for n in ("create_future", "SmartFuture.__init__", "_SmartFutureMixin._self_done_cleanup_callback")] + [Q + "_SmartFutureRef.__lt__"]
    assumes = (
        "asyncio.Queue: put_nowait without maxsize puts with _put, get takes with _get",
        "heapq: heappop removes one of the entries",
        "weakref.WeakValueDictionary is a dict whose entries vanish when nobody holds the value",
        "arguments are hashable; equal keys are equal arguments: tuples compare by their elements",
    )
    must_cover = ("put", "again", "closed", "broken", "without keywords", "with keywords", "others took its place", "skipped", "delivered")

    def __init__(self, how):
        self.how = how
        self.name = f"smart: {how}"

    def good_key(self, run, k):
        """k says the arguments and, for every keyword, its name and value, in an order of their own; and nothing that differs between equal submissions"""
        seen = {"args": False, "pairs": False, "names": False, "order": True, "other": None}
        gk, gv = (self.kw.entries[0] if self.kw is not None else (None, None))

        def same(a, b):
            t = run.same(a, b)
            return is_true(t) or (not is_false(t) and run.holds(zbool(t)))

        def walk(x):
            if isinstance(x, StarTuple):
                if x.seq is self.args[-1].seq and len(x.prefix) == len(self.args) - 1 and all(same(u, v) for u, v in zip(x.prefix, self.args)):
                    seen["args"] = True
                else:
                    seen["other"] = x
                return
            g = ghost_of(x)
            if g is not None:
                if self.kw is None or g.fam is not self.kw.fam or not g.whole:
                    seen["other"] = x
                    return
                if isinstance(g.order, tuple) and g.order[0] == "sorted":
                    by = g.order[1]
                    by = by if isinstance(by, tuple) else (by,)
                    if not same(by[0], gk):
                        seen["order"] = False  # values need not be comparable, and may be equal
                else:
                    seen["order"] = False
                for e in g.entries:
                    if isinstance(e, tuple) and len(e) == 2 and same(e[0], gk) and same(e[1], gv):
                        seen["pairs"] = True
                    elif same(e, gk):
                        seen["names"] = True
                    elif same(e, gv):
                        seen["values"] = True
                    else:
                        seen["other"] = e
                return
            if isinstance(x, tuple):
                for y in x:
                    walk(y)
                return
            if isinstance(x, ListObj) and x.kind == "tuple" and x.items is not None:
                for y in x.items:
                    walk(y)
                return
            if x is None or isinstance(x, (str, int, bool)) or x is self.q.fields["func"]:
                return  # the same in every key
            seen["other"] = x

        walk(k)
        if seen["other"] is not None:
            raise Unsupported(f"key made of {seen['other']!r}")
        run.prove(seen["args"], "different arguments have different keys")
        if self.kw is not None:
            run.prove(seen["pairs"] or (seen["names"] and seen.get("values", False)), "different keywords have different keys")
            run.prove(seen["order"], "the order of the keywords is not part of the key")

    def run(self, run):
        q = self.setup(run)
        q.fields["_queue"] = self.heap
        m = self.m = q.fields["_futs"] = FutMap(self)
        args, _, _ = sym_call_args(run, kw=())
        self.args = args
        self.kw = None
        kwargs = {}
        if run.fork("without keywords", "with keywords") == 1:
            name, value = run.fresh("keyword", "str"), run.fresh("value")
            self.kw = run.new(GMap(run, "keywords", name, value))
            kwargs = {"**": self.kw}
        state = run.fork("no such item", "one is pending", "one is finished")
        old = None
        if state:
            old = m.at = self.F.fresh("SmartFuture", "earlier")
            if state == 2:
                self.F.finish(old, ("ret", "exc", "cancelled")[run.fork("ret", "exc", "cancelled")])
        out = self.call(run, self.how, list(args), kwargs)
        if self.refused(run, out):
            run.prove(m.at is old, "nothing is registered")
            return
        run.cover("with keywords" if self.kw is not None else "without keywords")
        run.prove(out[0] == "ret", "an open queue takes it")
        if out[0] != "ret":
            return
        fut = out[1]
        if state == 1:
            run.cover("again")
            run.prove(fut is old, "a pending item's own future is returned")
            run.prove(self.heap.pushed == [] and self.puts == [], "and nothing is executed twice")
            run.prove(m.at is old, "it stays registered")
            return
        run.cover("put")
        ok = isinstance(fut, Obj) and "#state" in fut.fields
        run.prove(ok and fut is not old, "a new future is returned")
        if not ok:
            return
        run.prove(fut.fields["#state"] == "pending", "which is pending")
        run.prove(m.at is fut, "it is registered for the next one who asks")
        ok = len(self.heap.pushed) == 1
        run.prove(ok, "one entry is put into the queue")
        if not ok:
            return
        if run.fork("the future is held", "nobody holds it") == 1:
            self.dead.add(id(fut))
        item = self.taken(run, self.heap.pushed[0])
        ok = len(item) == 3
        run.prove(ok, "a worker gets arguments, keywords and the future")
        if not ok:
            return
        a = given(item[0])
        run.prove(len(a) == len(args) and isinstance(a[-1], StarArgs) and a[-1].seq is args[-1].seq and all(run.holds(zbool(run.same(x, y))) for x, y in zip(a[:-1], args[:-1])), "the very arguments of the item")
        if self.kw is None:
            run.prove(isinstance(item[1], DictObj) and not item[1].entries and item[1].rest is None, "no keywords")
        else:
            run.prove(isinstance(item[1], GDict) and item[1].fam is self.kw.fam and item[1].entries == self.kw.entries and item[1].whole, "the very keywords of the item")
        if self.dead:
            run.cover("skipped")
            run.prove(item[2] is None, "there is no future any more")
            return
        run.cover("delivered")
        run.prove(item[2] is fut, "the future of the item is the one returned for it")
        other = run.fork("still registered", "another took its place", "gone")
        if other == 1:
            m.at = self.F.fresh("SmartFuture", "later")
        elif other == 2:
            m.at = None
        was = m.at
        self.F.finish(fut, ("ret", "exc", "cancelled")[run.fork("ret", "exc", "cancelled")])
        o = outcome_of(run, lambda: self.F.fire(fut))
        run.prove(o[0] == "ret", "ending does not fail")
        if other == 1:
            run.cover("others took its place")
            run.prove(m.at is was, "another item's future stays registered")
        # a finished one may stay registered: it is not given to anybody (see "one is finished")


class RefOrder(Case):
    kind = "SmartProcessingQueue"
    name = "smart: entries can be ordered without their arguments"
    functions = [Q + "_SmartFutureRef.__lt__", S_ + "SmartFuture.__lt__"]
    assumes = ("references to different futures are different; tuples compare elements until they differ",)
    must_cover = ("both live", "one is gone")

    def run(self, run):
        q = self.setup(run)
        if self.closed or self.w.broken is not None:
            raise PathEnd()
        q.fields["_queue"] = self.heap
        run.summaries[S_ + "_SmartFutureMixin.num_waiters"] = lambda r, f, a, k: waiters[id(a[0])]
        waiters = {}
        self.kw = None
        opaque = []
        for i in range(2):
            q.fields["_futs"] = FutMap(self)  # another key
            args, _, _ = sym_call_args(run, kw=())
            self.args = args
            opaque += args
            out = self.call(run, "put_nowait", list(args), {})
            if out[0] != "ret":
                run.prove(False, "an open queue takes it")
                return
            waiters[id(out[1])] = run.fresh("num_waiters", "int")
            if i == 0:
                a = out[1]
            else:
                b = out[1]
        ok = len(self.heap.pushed) == 2
        run.prove(ok, "every item is put")
        if not ok:
            return
        gone = run.fork("both live", "first gone", "second gone", "both gone")
        run.cover("one is gone" if gone else "both live")
        for j, f in ((1, a), (2, b)):
            if gone & j:
                self.dead.add(id(f))
        o = outcome_of(run, lambda: less(run, *self.heap.pushed, opaque))
        run.prove(o[0] == "ret", "comparing two entries does not fail")


def contracts():
    out = [Priority(h, d) for h in ("put_nowait", "put", "call") for d in (True, False)]
    out += [Smart(h) for h in ("put_nowait", "put", "call")] + [RefOrder()]
    out += [Worker("priority"), Worker("smart"), Start("priority"), Start("smart")]
    return out
