"""Dual iterators, filters, sorters.

Iterators and filters: the source is any number of items, item(0), item(1), ...; F(i) is what its first i items amount to: themselves, or those
for which the predicate was truthy.  Loop invariant of every consumer: what it got is F(pos), with pos items pulled from the source.
Sorters: the items are known at a generic one (pyvc/coll.py): it is asked for its key once, and delivered once, in the order the built-in sort
gives by that key (sorted and list.sort are trusted to be stable)."""
import collections.abc as abc

from .collect import *
from .C25 import Ensured
from pyvc.coll import consume, finish

I = "a_sync.iter:"
ITER = [I + n for n in ("ASyncIterator.__init__", "ASyncIterator.__next__", "ASyncIterator.__anext__", "ASyncIterator.__iter__", "ASyncIterator.__aiter__", "ASyncIterable.__init__", "ASyncIterable.__iter__", "ASyncIterable.__aiter__")]
FILT = [I + n for n in ("_ASyncView.__init__", "ASyncFilter.__anext__", "ASyncFilter._check")]
SORT = [I + n for n in ("_ASyncView.__init__", "ASyncSorter.__init__", "ASyncSorter.__aiter__", "ASyncSorter.__anext__", "ASyncSorter.__sort", "_key_if_no_key")]
GENF = [I + n for n in ("ASyncGeneratorFunction.__init__", "ASyncGeneratorFunction.__call__", "ASyncGeneratorFunction.__get__", "ASyncGeneratorFunction.__self__")]

item = z3.Function("item", z3.IntSort(), V)
F = z3.Function("F", z3.IntSort(), SeqV)

CONSUMER = """
def consume(it):
    for x in it:
        note(x)

async def consume_async(it):
    async for x in it:
        note(x)
"""


def user_error(run, name):
    e = run.fresh_exc(name)
    run.assume(zbool(run.isinstance_(e, Ext("builtins.Exception", Exception))))
    for c in (StopIteration, StopAsyncIteration):
        run.assume(z3.Not(zbool(run.isinstance_(e, Ext("builtins." + c.__name__, c)))))
    run.assume(z3.Function("str_of", V, z3.StringSort())(e.t) != z3.StringVal("This event loop is already running"))
    return e


class Source:
    """an iterator of the user's: n items, then the end or an error; pos items pulled so far"""

    def __init__(self, run, is_async):
        self.is_async = is_async
        self.n = run.fresh("n", "int").t
        run.assume(self.n >= 0)
        run.assume(F(0) == z3.Empty(SeqV))
        self.fails = z3.Bool("source_fails")
        self.err = user_error(run, "source_error")
        run.gset("pos", SInt(z3.IntVal(0)))
        self.val = run.fresh("source")
        run.assume(self.val.t != V.none)
        self.val.model = self
        self.plain = True

    def truth(self, run, o):
        return run.fresh("source_truth", "bool").t  # asked or not, it says nothing

    def isinstance(self, run, o, c):
        if isinstance(c, Ext) and isinstance(c.pyobj, type):
            names = ("AsyncIterable", "AsyncIterator") if self.is_async else ("Iterable", "Iterator")
            return c.pyobj.__name__ in names or c.pyobj is object
        return False

    def pos(self, run):
        return run.gget("pos").t

    def pull(self, run):
        run.rely()
        p = self.pos(run)
        if run.branch(p < self.n):
            run.gset("pos", SInt(p + 1))
            x = SV(item(p))
            if self.plain:
                run.assume(F(p + 1) == z3.Concat(F(p), z3.Unit(item(p))))
            return x
        if run.branch(self.fails):
            raise PyExc(self.err)
        run.raise_("StopAsyncIteration" if self.is_async else "StopIteration")

    def getattr(self, run, o, name):
        if self.is_async:
            if name == "__aiter__":
                return Native(name, lambda r, a, k: o)
            if name == "__anext__":
                return Native(name, lambda r, a, k: Pull(self))
        else:
            if name == "__iter__":
                return Native(name, lambda r, a, k: o)
            if name == "__next__":
                return Native(name, lambda r, a, k: self.pull(r))
        run.raise_("AttributeError", name)

    def iterator(self, run, o, is_async):
        if is_async != self.is_async:
            run.raise_("TypeError", "wrong kind of iteration")
        return SrcCursor(self)


class Pull(Val):
    def __init__(self, src):
        self.src = src

    def isawaitable(self, run):
        return True

    def await_(self, run):
        return self.src.pull(run)


class SrcCursor:
    def __init__(self, src):
        self.src = src

    def begin(self, run):
        pass

    havoc = advance = finish = begin

    def candidates(self, run):
        return []

    def more(self, run):
        try:
            self.x = self.src.pull(run)
            return True
        except PyExc as e:
            if isinstance(e.value, SV):
                raise
            return False

    def element(self, run):
        return self.x


class Streams(Contract):
    assumes = (
        "a source's own error, a predicate's or a key's is no StopIteration / StopAsyncIteration and does not carry asyncio's 'already running' message",
        "loop.run_until_complete runs the awaitable to its end (asyncio)",
    )

    def prepare(self, run, is_async):
        self.src = Source(run, is_async)
        self.out = run.list([])
        run.write(self.out, "#", (None, z3.Empty(SeqV)))
        run.gset("asked", SInt(z3.IntVal(0)))
        self.counting = False
        run.hooks["loop_running"] = self.mode == "async"
        self.ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: r.list_append(self.out, a[0])))

    def got(self):
        return self.out.seq if self.out.items is None else None

    def invariants(self, run, loop_id, st, fr, cur):
        if not hasattr(self, "src"):
            return
        pos = lambda: self.src.pos(run)
        yield "0 <= pos <= n", lambda: z3.And(pos() >= 0, pos() <= self.src.n)
        yield "got = F(pos)", lambda: self.got() == F(pos())
        if self.counting:
            yield "asked = pos", lambda: run.gget("asked").t == pos()

    def consume(self, run, it):
        if self.mode == "sync":
            return outcome_of(run, lambda: run.call(self.ns["consume"], [it], {}))
        return outcome_of(run, lambda: run.await_(run.call(self.ns["consume_async"], [it], {})))

    def judge(self, run, out):
        src = self.src
        pos = src.pos(run)
        if out[0] == "ret":
            run.cover("ended")
            run.prove(z3.Not(src.fails), "the iteration ends only as the source does")
            run.prove(pos == src.n, "it ends only after the source's last item")
            run.prove(self.got() == F(src.n), "exactly the items expected, in order")
        else:
            bad = getattr(self, "pred_exc", None)
            if bad is not None:
                run.cover("predicate failed")
                prove_same(run, out[1], bad, "the predicate's failure is raised as it is")
                run.prove(self.got() == F(pos - 1), "the items before it were delivered")
                return
            run.cover("source failed")
            prove_same(run, out[1], src.err, "the source's failure is raised as it is")
            run.prove(z3.And(src.fails, pos == src.n), "only after the source's last item")
            run.prove(self.got() == F(src.n), "all items before the failure were delivered")


class Iterate(Streams):
    functions = ITER

    def __init__(self, cls, mode):
        self.cls, self.mode = cls, mode
        self.name = f"{cls}, {mode} iteration of any source"
        self.must_cover = ("ended", "source failed")

    def run(self, run):
        self.prepare(run, True)
        it = run.call(run.world.fn(I + self.cls), [self.src.val], {})
        self.judge(run, self.consume(run, it))


class Next(Streams):
    """single steps from any position"""

    functions = ITER

    def __init__(self, mode):
        self.mode = mode
        self.name = f"ASyncIterator, one {mode} step at any position"
        self.must_cover = ("item", "end", "failure")

    def run(self, run):
        self.prepare(run, True)
        run.gset("pos", run.fresh("pos", "int"))
        p0 = self.src.pos(run)
        run.assume(z3.And(p0 >= 0, p0 <= self.src.n))
        it = run.call(run.world.fn(I + "ASyncIterator"), [self.src.val], {})
        if self.mode == "sync":
            out = outcome_of(run, lambda: run.call(run.getattr_(it, "__next__"), [], {}))
        else:
            out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(it, "__anext__"), [], {})))
        p1 = self.src.pos(run)
        if out[0] == "ret":
            run.cover("item")
            prove_same(run, out[1], SV(item(p0)), "the source's next item")
            run.prove(z3.And(p1 == p0 + 1, p0 < self.src.n), "one item is pulled")
        else:
            run.prove(z3.And(p1 == p0, p0 == self.src.n), "an end or a failure only where the source's is")
            if isinstance(out[1], SV):
                run.cover("failure")
                prove_same(run, out[1], self.src.err, "the source's own failure")
                run.prove(self.src.fails, "only if the source fails")
            else:
                run.cover("end")
                run.prove(z3.Not(self.src.fails), "the end only if the source does not fail")
                prove_exc(run, out, "StopIteration" if self.mode == "sync" else "StopAsyncIteration", "the end is signalled as iteration does")


class Running(Streams):
    functions = ITER
    mode = "async"
    must_cover = ("refused",)

    def __init__(self, cls):
        self.cls = cls
        self.name = f"{cls}, sync iteration inside a running loop"

    def run(self, run):
        self.prepare(run, True)
        it = run.call(run.world.fn(I + self.cls), [self.src.val], {})
        out = outcome_of(run, lambda: run.call(self.ns["consume"], [it], {}))
        run.cover("refused")
        prove_exc(run, out, "SyncModeInAsyncContextError", "it is refused")
        run.prove(self.src.pos(run) == 0, "nothing is pulled")
        run.prove(self.got() == z3.Empty(SeqV), "nothing is delivered")


class Predicate(Val):
    """a predicate of the user's; its answer for item i decides F(i+1)"""

    def __init__(self, c, kind):
        self.c, self.kind = c, kind
        self.cls = Ext("types.FunctionType", __import__("types").FunctionType)

    def truth(self, run):
        return True

    def iscoroutinefunction(self, run):
        return self.kind == "coroutine"

    def getattr(self, run, name):
        if name in ("__name__", "__qualname__"):
            return "predicate"
        return UNSET

    def call(self, run, a, k):
        i = run.gget("asked").t
        pos = self.c.src.pos(run)
        run.prove(len(a) == 1 and not k, "the function gets the item alone")
        run.prove(i == pos - 1, "the function is asked once per item, as it comes")
        prove_same(run, a[0], SV(item(pos - 1)), "the function is asked about the item at hand")
        run.gset("asked", SInt(i + 1))
        if self.kind == "sync":
            return self.answer(run, i)
        if self.kind == "coroutine":
            return Coro(lambda: (run.rely(), self.answer(run, i))[1], "predicate", list(a), {}, self)
        x = run.fresh("answer_awaitable")
        x.model = Answering(self, i)
        return x

    def answer(self, run, i):
        if run.fork("the predicate answers", "the predicate fails") == 1:
            e = user_error(run, "predicate_error")
            self.c.pred_exc = e
            raise PyExc(e)
        r = run.fresh("answer")
        r.model = PLAIN
        t = zbool(run.truth_term(r))
        run.assume(F(i + 1) == z3.If(t, z3.Concat(F(i), z3.Unit(item(i))), F(i)))
        return r


class Plain:
    """a value that is no awaitable"""

    def isawaitable(self, run, o):
        return False


PLAIN = Plain()


class Answering(Plain):
    def __init__(self, p, i):
        self.p, self.i = p, i

    def isawaitable(self, run, o):
        return True

    def truth(self, run, o):
        return True

    def await_(self, run, o):
        run.rely()
        return self.p.answer(run, self.i)


class Filter(Streams):
    functions = ITER + FILT

    def __init__(self, src, pred, mode, how):
        self.srckind, self.pred, self.mode, self.how = src, pred, mode, how
        self.name = f"filter of {src} by a predicate ({pred}), {mode}{', made by .filter()' if how else ''}"
        self.must_cover = ("ended", "source failed", "predicate failed")

    def run(self, run):
        self.prepare(run, self.srckind != "a sync iterable")
        self.src.plain = False
        self.counting = True
        self.pred_exc = None
        p = Predicate(self, self.pred)
        if self.how:
            d = run.call(run.world.fn(I + "ASyncIterator"), [self.src.val], {})
            it = run.call(run.getattr_(d, "filter"), [p], {})
        else:
            it = run.call(run.world.fn(I + "ASyncFilter"), [p, self.src.val], {})
        self.judge(run, self.consume(run, it))


class FamSource(Val):
    """an iterable of n items, then the end or an error; known at a generic item"""

    def __init__(self, run, is_async):
        self.is_async = is_async
        self.cls = Ext("collections.abc.AsyncIterator", abc.AsyncIterator) if is_async else Ext("collections.abc.Iterator", abc.Iterator)
        self.err = user_error(run, "source_error")
        self.x = None
        self.failed = False
        if run.fork("some items", "no items") == 0:
            self.fam = Family(run, "items")
            self.x = run.fresh("item")
            self.x.model = PLAIN
            self.g = run.new(GColl(self.fam, [self.x], "input", "generator"))
            self.g.ending = self.end
        else:
            self.g = None

    def end(self, run):
        if run.fork("the source ends", "the source fails") == 1:
            self.failed = True
            raise PyExc(self.err)

    def truth(self, run):
        return run.fresh("source_truth", "bool").t

    def concrete_iter(self, run):
        if self.g is None:
            self.end(run)
            return []
        return None

    def getattr(self, run, name):
        if name == ("__aiter__" if self.is_async else "__iter__"):
            return Native(name, lambda r, a, k: self)
        return UNSET

    def iterated(self, run, is_async):
        if is_async != self.is_async:
            run.raise_("TypeError", "wrong kind of iteration")
        if self.g is None:
            self.end(run)
            return Gen(lambda oy: None, "nothing", is_async)
        return self.g


class Key(Val):
    """a key of the user's"""

    cls = Ext("types.FunctionType", __import__("types").FunctionType)

    def __init__(self, kind):
        self.kind = kind

    def truth(self, run):
        return True

    def iscoroutinefunction(self, run):
        return self.kind == "coroutine"

    def getattr(self, run, name):
        if name in ("__name__", "__qualname__"):
            return "key"
        return UNSET

    def call(self, run, a, k):
        run.event("key", tuple(a), dict(k))
        if self.kind == "sync":
            return self.answer(run)
        if self.kind == "coroutine":
            return Coro(lambda: (run.rely(), self.answer(run))[1], "key", list(a), {}, self)
        x = run.fresh("key_awaitable")
        x.model = KeyAw(self)
        return x

    def answer(self, run):
        if run.fork("the key is given", "the key fails") == 1:
            e = user_error(run, "key_error")
            run.event("key-exc", e)
            raise PyExc(e)
        r = run.fresh("key_value")
        r.model = PLAIN
        run.event("key-ret", r)
        return r


class KeyAw(Plain):
    def __init__(self, k):
        self.k = k

    def isawaitable(self, run, o):
        return True

    def await_(self, run, o):
        run.rely()
        return self.k.answer(run)


class Sorter(Contract):
    functions = SORT
    assumes = (
        "the built-in sort asks the key once per element and yields a stable permutation ordered by it (reversed: in descending order, stable too); the keys are comparable",
        "asyncio.gather as in contracts/collect.py; create_task: C15's contract",
        "synchronous iteration: ASyncSorter inherits ASyncIterator.__next__, proved for any __anext__",
    )

    def __init__(self, src, key, how):
        self.src, self.key, self.how = src, key, how
        self.name = f"sorter of {src}, key {key}{', made by .sort()' if how else ''}"
        self.must_cover = ["sorted", "source failed", "nothing"] + (["key failed"] if key not in ("none", "absent") else [])

    def run(self, run):
        install(run)
        old = run.hooks["ext_call"]
        run.hooks["ext_call"] = lambda r, f, a, k: itemgetter(r, a) if f.path.endswith("operator.itemgetter") else old(r, f, a, k)
        run.summaries.update({"a_sync.asyncio.create_task:ccreate_task_simple": lambda r, f, a, k: Ensured(a[0])})
        run.summaries.pop("new:a_sync.iter:ASyncIterator", None)
        run.hooks["delegates"] = True
        src = FamSource(run, self.src != "a sync iterable")
        kw = {}
        key = None
        if self.key == "none":
            kw["key"] = None
        elif self.key != "absent":
            key = kw["key"] = Key(self.key)
        rev = False
        r = run.fork("reverse absent", "reverse False", "reverse True")
        if r:
            rev = kw["reverse"] = r == 2
        ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: r.event("note", a[0], r.ghost_loops[-1].coll.order if r.ghost_loops else None)))
        cls = run.world.fn(I + "ASyncSorter")
        nx = run.class_attr(cls, "__next__")
        run.prove(nx is not UNSET and nx is run.class_attr(run.world.fn(I + "ASyncIterator"), "__next__"), "sync iteration is ASyncIterator's")
        if self.how:
            d = run.call(run.world.fn(I + "ASyncIterable"), [src], {})
            it = run.call(run.getattr_(d, "sort"), [], kw)
        else:
            it = run.call(cls, [src], kw)
        rd = run.getattr_(it, "reversed")
        run.prove(rd is rev, "reversed tells the direction")
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [it], {})))
        notes = [e for e in run.trace if e[0] == "note"]
        keys = [e for e in run.trace if e[0] == "key"]
        kret = [e for e in run.trace if e[0] == "key-ret"]
        kexc = [e for e in run.trace if e[0] == "key-exc"]
        if src.failed:
            run.cover("source failed")
            prove_outcome(run, out, ("exc", src.err), "the source's failure is raised as it is")
            run.prove(notes == [], "nothing is delivered of a source that fails")
            return
        if kexc:
            run.cover("key failed")
            prove_outcome(run, out, ("exc", kexc[0][1]), "the key's failure is raised as it is")
            run.prove(notes == [], "nothing is delivered when a key fails")
            return
        run.prove(out[0] == "ret", "it ends normally")
        if src.x is None:
            run.cover("nothing")
            run.prove(notes == [] and keys == [], "nothing for nothing")
            return
        if key is not None:
            run.prove(len(keys) == 1 and len(kret) == 1, "the key is asked once per item")
            for e in keys:
                run.prove(len(e[1]) == 1 and not e[2], "the key gets the item alone")
                if e[1]:
                    prove_same(run, e[1][0], src.x, "the key is asked about the item")
            by = kret[0][1] if kret else None
        else:
            by = src.x
        run.prove(len(notes) == 1, "every item is delivered exactly once")
        for e in notes:
            prove_same(run, e[1], src.x, "the item itself is delivered")
            o = e[2]
            ok = isinstance(o, tuple) and o[0] == "sorted" and o[3] == "input"
            run.prove(ok, "in the order of a (stable) sort of the items as they came")
            if ok:
                run.prove(o[2] is rev, "in the direction asked for")
                if by is not None:
                    prove_same(run, o[1], by, "sorted by the item's own key")
        run.cover("sorted")


def itemgetter(run, a):
    return Native("itemgetter", lambda r, b, k: r.getitem(b[0], a[0]))


class GenFunction(Contract):
    """a generator function, plain or as a method: the generator is the one the function makes of the caller's arguments"""

    functions = GENF
    assumes = ("loop.call_later only schedules (the cached bound function is dropped after a while)", "weakref.ref(x)() is x while x lives")

    def __init__(self, bound):
        self.bound = bound
        self.name = f"generator function{', as a method' if bound else ''}: arguments and source"
        self.must_cover = ("called",)

    def run(self, run):
        rest_has_no_flags(run)
        made = []
        gen = run.fresh("generator")
        gen.model = GenObj()
        fn = AGenFn(made, gen)
        run.hooks["loop_running"] = run.fork("outside", "inside a running loop") == 1
        G = run.call(run.world.fn(I + "ASyncGeneratorFunction"), [fn], {})
        args, kwargs, check = sym_call_args(run)
        if self.bound:
            ns = user_module(run, "class Owner:\n    def __init__(self, v):\n        self.v = v\n    gen = deco\n", deco=G)
            o1 = run.call(ns["Owner"], [1], {})
            o2 = run.call(ns["Owner"], [2], {})
            for o in (o1, o2, o1):
                made.clear()
                it = run.call(run.getattr_(o, "gen"), list(args), dict(kwargs))
                run.prove(len(made) == 1, "the function is called once")
                for a, k in made:
                    run.prove(len(a) > 0 and a[0] is o, "with the instance it was looked up on")
                    check(run, a[1:], k, "the caller's arguments")
                self.source(run, it, gen)
        else:
            it = run.call(G, list(args), dict(kwargs))
            run.prove(len(made) == 1, "the function is called once")
            for a, k in made:
                check(run, a, k, "the caller's arguments")
            self.source(run, it, gen)
        run.cover("called")

    def source(self, run, it, gen):
        ok = isinstance(it, Obj) and it.cls.qualname == I + "ASyncIterator"
        run.prove(ok, "an ASyncIterator is returned")
        if ok:
            prove_same(run, run.getattr_(it, "__wrapped__"), gen, "it iterates the generator the function made")


class GenObj:
    def isinstance(self, run, o, c):
        return isinstance(c, Ext) and isinstance(c.pyobj, type) and c.pyobj.__name__ in ("AsyncIterable", "AsyncIterator", "AsyncGenerator", "object")


class AGenFn(UserFn):
    def __init__(self, made, gen):
        super().__init__("gen", False)
        self.made, self.gen = made, gen

    def call(self, run, a, k):
        self.made.append((list(a), dict(k)))
        return self.gen


def contracts():
    out = [Iterate(c, m) for c in ("ASyncIterator", "ASyncIterable") for m in ("sync", "async")]
    out += [Next(m) for m in ("sync", "async")]
    out += [Running(c) for c in ("ASyncIterator", "ASyncIterable")]
    out += [Filter(s, p, m, h) for s in ("an async iterable", "a sync iterable") for p in ("sync", "coroutine", "awaitable") for m in ("sync", "async") for h in ((False, True) if (s, p) == ("an async iterable", "sync") else (False,))]
    out += [Sorter(s, k, h) for s in ("an async iterable", "a sync iterable") for k in ("absent", "none", "sync", "coroutine", "awaitable") for h in ((False, True) if s == "an async iterable" else (False,))]
    out += [GenFunction(b) for b in (False, True)]
    return out
