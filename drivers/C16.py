"""dual iterators, filters and sorters over short sources, in both modes, against lists, filter() and sorted()"""
import functools
import itertools

from a_sync import ASyncIterable, ASyncIterator
from a_sync.exceptions import SyncModeInAsyncContextError
from a_sync.iter import ASyncFilter, ASyncGeneratorFunction, ASyncSorter

from drivers.lib import *

SPACE = "sources of 0..4 items with repeats, falsy and unorderable ones (async generator, async iterable, sync iterable, sync iterator, falsy containers, another dual iterator), failing at every position or not x sync / async consumption x predicates and keys (sync, coroutine function, callable returning an awaitable, partial, bound method; truthy objects; failing at every item) x reverse; step-by-step consumption; generator functions and methods; reuse; use inside a running loop"


class Boom(Exception):
    pass


class It:
    """an item: compares by its key only, equal items are told apart by n"""

    def __init__(self, k, n):
        self.k, self.n = k, n

    def __repr__(self):
        return f"{self.k}#{self.n}"

    def __bool__(self):
        return False


def agen(items, fail=None, pause=True):
    async def g():
        for i, x in enumerate(items):
            if fail == i:
                raise Boom(i)
            if pause:
                await asyncio.sleep(0)
            yield x
        if fail == len(items):
            raise Boom(fail)

    return g()


class AIt:
    """async iterable; empty by its truth value"""

    def __init__(self, items, fail):
        self.items, self.fail = items, fail

    def __aiter__(self):
        return agen(self.items, self.fail)

    def __bool__(self):
        return False


class AIter2:
    """async iterator with a falsy truth value"""

    def __init__(self, items, fail):
        self.g = agen(items, fail, False)

    def __aiter__(self):
        return self

    def __anext__(self):
        return self.g.__anext__()

    def __len__(self):
        return 0


class SIt:
    """sync iterator whose truth value is false"""

    def __init__(self, items, fail):
        self.items, self.fail, self.i = items, fail, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.i == self.fail:
            raise Boom(self.i)
        if self.i >= len(self.items):
            raise StopIteration
        self.i += 1
        return self.items[self.i - 1]

    def __len__(self):
        return 0


ASRC = {"agen": agen, "aiterable": AIt, "aiterator": AIter2}
SSRC = {"list": lambda items, fail: list(items), "iterator": SIt}


def collect(it, mode, steps=False):
    """(items, how it ended)"""
    out = []
    if mode == "sync":
        try:
            if steps:
                i = iter(it)
                while True:
                    try:
                        out.append(next(i))
                    except StopIteration:
                        break
            else:
                for x in it:
                    out.append(x)
        except Exception as e:
            return out, (type(e), e.args)
        return out, None

    async def main():
        try:
            if steps:
                i = it.__aiter__()
                while True:
                    try:
                        out.append(await i.__anext__())
                    except StopAsyncIteration:
                        break
            else:
                async for x in it:
                    out.append(x)
        except Exception as e:
            return out, (type(e), e.args)
        return out, None

    return asyncio.get_event_loop().run_until_complete(main())


def with_loop(f):
    """runs f() (which uses the thread's loop) with a virtual loop as current one"""
    loop = VLoop()
    loop.set_exception_handler(quiet)
    asyncio.set_event_loop(loop)
    try:
        f()
    except Deadlock as e:
        raise Bad(f"deadlock: {e}")
    finally:
        try:
            for t in asyncio.all_tasks(loop):
                t.cancel()
            loop.run_until_complete(loop.shutdown_asyncgens())
        except BaseException:
            pass
        asyncio.set_event_loop(None)
        loop.close()


def ident(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


LISTS = [tuple(It(k, n) for n, k in enumerate(ks)) for L in range(4) for ks in itertools.product(range(2), repeat=L)] + [
    tuple(It(k, n) for n, k in enumerate(ks)) for ks in ((2, 0, 1, 0), (1, 1, 0, 0), (0, 1, 2, 3), (3, 2, 1, 0))
]


def plain(cls, src, mode):
    def body():
        for items in LISTS:
            for fail in (None, *range(len(items) + 1)):
                for steps in (False, True):
                    s = ASRC[src](items, fail)
                    if cls is ASyncIterator and not hasattr(s, "__anext__"):
                        continue
                    got, end = collect(cls(s), mode, steps)
                    want = items if fail is None else items[:fail]
                    check(ident(got, want), f"items {got}, source has {want} (fails at {fail})")
                    eq(end, None if fail is None else (Boom, (fail,)), "how the iteration ended")
                if fail is None and (cls is ASyncIterable or src != "aiterable"):
                    # materialized
                    d = cls(ASRC[src](items, fail))
                    if mode == "sync":
                        got = d.materialized
                    else:
                        async def m():
                            return await d

                        got = asyncio.get_event_loop().run_until_complete(m())
                    check(isinstance(got, list) and ident(got, items), f"materialized: {got}, source has {items}")
                    if cls is ASyncIterable and src == "aiterable":
                        for k in range(2):
                            got, end = collect(d, mode)
                            check(ident(got, items), f"iterating an iterable again gave {got}, source has {items}")

    return lambda: with_loop(body)


class Meth:
    def __init__(self, f):
        self.f = f

    def m(self, x):
        return self.f(x)

    async def am(self, x):
        await asyncio.sleep(0)
        return self.f(x)

    def __call__(self, x):
        return self.f(x)

    __name__ = "meth"


def kinds(f):
    """the same function in every shape a user may give it"""

    async def co(x):
        await asyncio.sleep(0)
        return f(x)

    def ret_aw(x):
        return co(x)

    async def slow(x):
        await asyncio.sleep(5 - x.n)  # finishes in reverse order
        return f(x)

    yield "sync", f
    yield "coroutine", co
    yield "slow", slow
    yield "awaitable", ret_aw
    yield "bound", Meth(f).m
    yield "abound", Meth(f).am
    yield "callable", Meth(f)
    yield "partial", functools.partial(lambda y, x: f(x), 1)
    yield "apartial", functools.partial(Meth(f).am)


KINDS = tuple(k for k, _ in kinds(None))
PRED = {
    "truthy": lambda x: x.k,
    "objects": lambda x: [1] if x.k else "",
    "none": lambda x: None,
    "all": lambda x: "x",
}


def sources(kind_of_src, items, fail):
    if kind_of_src in ASRC:
        return ASRC[kind_of_src](items, fail)
    if kind_of_src == "dual":
        return ASyncIterable(AIt(items, fail))
    return SSRC[kind_of_src](items, fail)


def filters(src, mode):
    def body():
        for items in LISTS:
            for fail in (None,) if src == "list" else (None, *range(len(items) + 1)):
                for pname, p in PRED.items():
                    for bad in (None, *range(len(items))) if pname == "truthy" else (None,):
                        calls = []

                        def pred(x):
                            calls.append(x)
                            if bad is not None and x.n == bad:
                                raise Boom("pred")
                            return p(x)

                        for kn, fn in kinds(pred):
                            if fail is not None and kn not in ("sync", "coroutine"):
                                continue
                            calls.clear()
                            base = sources(src, items, fail)
                            it = ASyncFilter(fn, base)
                            if src == "dual" and kn == "sync":
                                it = base.filter(fn)
                            got, end = collect(it, mode)
                            seen = items if fail is None else items[:fail]
                            want, wend = [], None if fail is None else (Boom, (fail,))
                            asked = []
                            for x in seen:
                                asked.append(x)
                                if x.n == bad:
                                    wend = (Boom, ("pred",))
                                    break
                                if p(x):
                                    want.append(x)
                            what = f"filter by {pname} ({kn}) of {items} failing at {fail}, predicate failing at {bad}"
                            check(ident(got, want), f"{what}: {got}, expected {want}")
                            eq(end, wend, f"{what}: how it ended")
                            check(ident(calls, asked), f"{what}: predicate asked about {calls}")

    return lambda: with_loop(body)


def sorters(src, mode):
    def body():
        for items in LISTS:
            for fail in (None,) if src == "list" else (None, *range(len(items) + 1)):
                for rev in (False, True):
                    for bad in (None, *range(len(items))):
                        for kn in KINDS:
                            calls = []

                            def key(x, calls=calls):
                                calls.append(x)
                                if bad is not None and x.n == bad:
                                    raise Boom("key")
                                return x.k

                            fn = dict(kinds(key))[kn]
                            if (fail is not None or bad is not None) and kn not in ("sync", "coroutine", "slow"):
                                continue
                            if fail is not None and bad is not None:
                                continue
                            base = sources(src, items, fail)
                            it = base.sort(key=fn, reverse=rev) if src == "dual" else ASyncSorter(base, key=fn, reverse=rev)
                            got, end = collect(it, mode)
                            what = f"sort ({kn} key, reverse={rev}) of {items} failing at {fail}, key failing at {bad}"
                            if fail is not None:
                                eq((got, end), ([], (Boom, (fail,))), what)
                            elif bad is not None:
                                eq((got, end), ([], (Boom, ("key",))), what)
                            else:
                                want = sorted(items, key=lambda x: x.k, reverse=rev)
                                check(ident(got, want), f"{what}: {got}, expected {want}")
                                eq(end, None, f"{what}: how it ended")
                                check(sorted(c.n for c in calls) == [x.n for x in items], f"{what}: key asked about {calls}")
        # no key
        for vals in itertools.product((2, 1, 3), repeat=3):
            for rev in (False, True):
                base = sources(src, vals, None)
                got, end = collect(ASyncSorter(base, reverse=rev), mode)
                eq((got, end), (sorted(vals, reverse=rev), None), f"sort of {vals}, reverse={rev}")

    return lambda: with_loop(body)


def chains(mode):
    def body():
        for items in LISTS:
            async def akey(x):
                return x.k

            async def apred(x):
                return x.k != 1

            src = ASyncIterable(AIt(items, None))
            want = sorted((x for x in items if x.k != 1), key=lambda x: x.k)
            for p in (apred, lambda x: x.k != 1):
                for k in (akey, lambda x: x.k):
                    got, end = collect(src.filter(p).sort(key=k), mode)
                    check(ident(got, want) and end is None, f"filter and sort of {items}: {got}, {end}")
                    got, end = collect(src.sort(key=k).filter(p), mode)
                    check(ident(got, want) and end is None, f"sort and filter of {items}: {got}, {end}")
                    got, end = collect(src.filter(p).filter(p), mode)
                    check(ident(got, [x for x in items if x.k != 1]), f"filter twice of {items}: {got}")

    return lambda: with_loop(body)


def genfuncs():
    def body():
        @ASyncGeneratorFunction
        async def gen(a, *rest, k=0):
            for x in (a, *rest, k):
                yield x

        class C:
            def __init__(self, v):
                self.v = v

            @ASyncIterator.wrap
            async def gen(self, n, *, step=1):
                for i in range(n):
                    await asyncio.sleep(0)
                    yield self.v, i * step

        for mode in ("sync", "async"):
            eq(collect(gen(1, 2, k=3), mode), ([1, 2, 3], None), "generator function")
            a, b = C("a"), C("b")
            for _ in range(2):
                ia, ib = a.gen(2, step=5), b.gen(3)
                eq(collect(ib, mode), ([("b", 0), ("b", 1), ("b", 2)], None), "generator method of b")
                eq(collect(ia, mode), ([("a", 0), ("a", 5)], None), "generator method of a")
            eq(collect(C.__dict__["gen"].__wrapped__(a, 1) if hasattr(C.__dict__["gen"], "__wrapped__") else a.gen(1), "async"), ([("a", 0)], None), "unbound")

    return with_loop(body)


def running():
    """sync iteration inside a running loop is refused, and does not consume"""

    async def main():
        it = ASyncIterator(agen([1, 2]))
        for obj in (it, ASyncIterable(AIt([1, 2], None))):
            try:
                for x in obj:
                    raise Bad(f"sync iteration in a running loop gave {x!r}")
            except SyncModeInAsyncContextError:
                pass
        got = [x async for x in it]
        eq(got, [1, 2], "items after a refused sync iteration")

    run(main)


def mixed():
    """the two modes take turns on one iterator"""

    def body():
        loop = asyncio.get_event_loop()
        for n in range(5):
            it = ASyncIterator(agen(list(range(n))))
            out = []

            async def step():
                return await it.__anext__()

            for i in range(n):
                out.append(next(it) if i % 2 else loop.run_until_complete(step()))
            eq(out, list(range(n)), "items taken in turns")
            eq(next(it, "end"), "end", "after the last item")

    return with_loop(body)


def refuses():
    for bad in (1, [1], None):
        for cls in (ASyncIterator, ASyncIterable):
            try:
                cls(bad)
            except TypeError:
                continue
            raise Bad(f"{cls.__name__}({bad!r}) accepted")


def cases(tier):
    for cls in (ASyncIterable, ASyncIterator):
        for src in ASRC:
            for mode in ("sync", "async"):
                yield f"plain.{cls.__name__}.{src}.{mode}", plain(cls, src, mode)
    for mode in ("sync", "async"):
        for src in (*ASRC, *SSRC, "dual"):
            yield f"filter.{src}.{mode}", filters(src, mode)
            yield f"sort.{src}.{mode}", sorters(src, mode)
        yield f"chains.{mode}", chains(mode)
    yield "genfuncs", genfuncs
    yield "running", running
    yield "mixed", mixed
    yield "refuses", refuses
