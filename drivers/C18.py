"""task mappings: runs per key and pairing of keys with results, over sources, timings, ways of consuming and direct access meanwhile"""
import asyncio
import gc
import itertools
import random

from a_sync import ASyncIterator, TaskMapping, a_sync

from drivers.lib import *

SPACE = "1..3 sources of 13 kinds with up to 4 keys, equal keys within and across sources, keys at different times x delays 0..3 of the function per key x failures x 20 ways of consuming x direct access from other tasks before, meanwhile, after x concurrency none/1/2; thorough: more random ones"


class Boom(Exception):
    pass


class Lazy:
    """an awaitable iterable that is no coroutine"""

    def __init__(self, keys):
        self.keys = keys

    def __await__(self):
        yield from asyncio.sleep(0.5).__await__()
        return self.keys


class Falsy:
    """an async iterable which is falsy"""

    def __init__(self, keys):
        self.keys = keys

    def __bool__(self):
        return False

    async def __aiter__(self):
        for k in self.keys:
            await asyncio.sleep(0)
            yield k


async def agen(keys, delays):
    for k, d in zip(keys, delays):
        if d is not None:
            await asyncio.sleep(d)
        yield k


async def coro(keys):
    await asyncio.sleep(0)
    return keys


KINDS = {
    "list": lambda ks: list(ks),
    "tuple": lambda ks: tuple(ks),
    "dict": lambda ks: {k: 0 for k in ks},
    "iter": lambda ks: iter(list(ks)),
    "gen": lambda ks: (k for k in list(ks)),
    "map": lambda ks: map(lambda x: x, list(ks)),
    "agen0": lambda ks: agen(ks, [None] * len(ks)),
    "agen1": lambda ks: agen(ks, [1] * len(ks)),
    "agenmix": lambda ks: agen(ks, [0, 2, 0, 3][: len(ks)]),
    "coro": lambda ks: coro(list(ks)),
    "lazy": lambda ks: Lazy(list(ks)),
    "falsy": lambda ks: Falsy(list(ks)),
    "dual": lambda ks: ASyncIterator(agen(ks, [0.5] * len(ks))),
}


class World:
    def __init__(self, delays=(), fails=()):
        self.delays, self.fails = dict(delays), set(fails)
        self.runs, self.ended = {}, {}

    async def fn(self, k, **kw):
        self.runs[k] = n = self.runs.get(k, 0) + 1
        try:
            await asyncio.sleep(self.delays.get(k, 0))
        finally:
            self.ended[k] = self.ended.get(k, 0) + 1
        if k in self.fails:
            raise Boom(k)
        return ("r", k, n)


async def collect(it):
    return [x async for x in it]


def pairs_of(d):
    return list(d.items())


WAYS = {
    # name: (makes pairs | keys | values, pops)
    "aiter": (lambda tm: collect(tm), "pairs", False),
    "aiter pop": (lambda tm: collect(tm.__aiter__(pop=True)), "pairs", True),
    "keys": (lambda tm: collect(tm.keys()), "keys", False),
    "keys pop": (lambda tm: collect(tm.keys(pop=True)), "keys", True),
    "values": (lambda tm: collect(tm.values()), "values", False),
    "values pop": (lambda tm: collect(tm.values(pop=True)), "values", True),
    "items": (lambda tm: collect(tm.items()), "pairs", False),
    "items pop": (lambda tm: collect(tm.items(pop=True)), "pairs", True),
    "await keys": (lambda tm: _await(tm.keys()), "keys", False),
    "await values": (lambda tm: _await(tm.values()), "values", False),
    "await items": (lambda tm: _await(tm.items()), "pairs", False),
    "items by keys": (lambda tm: collect(tm.items().aiterbykeys()), "sorted pairs", False),
    "items by values": (lambda tm: collect(tm.items().aiterbyvalues(reverse=True)), "reversed pairs", False),
    "keys by values": (lambda tm: collect(tm.keys().aiterbyvalues()), "sorted keys", False),
    "values by keys": (lambda tm: collect(tm.values(pop=True).aiterbykeys()), "sorted values", True),
    "map": (lambda tm: collect(tm.map(pop=False)), "pairs", False),
    "map pop": (lambda tm: collect(tm.map()), "pairs", True),
    "map keys": (lambda tm: collect(tm.map(pop=False, yields="keys")), "keys", False),
    "gather": (lambda tm: _gather(tm.gather(sync=False)), "pairs", False),
    "await": (lambda tm: _gather(tm), "pairs", False),
}


async def _await(x):
    return await x


async def _gather(x):
    return pairs_of(await x)


def check_got(kind, got, keys, w, what):
    want = {k: ("r", k, 1) for k in keys}
    if kind.startswith(("sorted", "reversed")):
        order, kind = kind.split()
        ks = [g if kind == "keys" else g[0] if kind == "pairs" else g[1] for g in got]
        eq(ks, sorted(ks, reverse=order == "reversed"), f"order of {what}")
    if kind == "pairs":
        eq(sorted(got), sorted(want.items()), what)
    elif kind == "keys":
        eq(sorted(got), sorted(want), what)
    else:
        eq(sorted(got), sorted(want.values()), what)


def sources_case(specs, delays, way, conc=None, asks=(), start=0):
    """specs: [(kind, keys)]; asks: [(time, key)] by a task of its own each"""

    async def main():
        w = World(delays)
        tm = TaskMapping(w.fn, *[KINDS[k](ks) for k, ks in specs], concurrency=conc)
        keys = list(dict.fromkeys(k for _, ks in specs for k in ks))
        answers = []

        async def ask(t, k):
            if t:
                await asyncio.sleep(t)
            answers.append((k, await tm[k]))

        ts = [asyncio.ensure_future(ask(t, k)) for t, k in asks]
        if start:
            await asyncio.sleep(start)
        make, kind, pops = WAYS[way]
        got = await asyncio.wait_for(make(tm), 500)
        if kind.endswith(("pairs", "values")):
            for k in keys:
                check(w.ended.get(k, 0) >= 1, f"{way} ends while {k} still runs")
        await asyncio.wait_for(asyncio.gather(*ts), 500)
        all_ = list(dict.fromkeys([*keys, *[k for _, k in asks]]))
        if way in ("gather", "await", "map", "map pop", "map keys", "aiter"):
            # whatever else was asked for is in the mapping too
            got = [g for g in got if (g if kind == "keys" else g[0]) in keys or (g if kind == "keys" else g[0]) not in all_]
        check_got(kind, got, keys, w, way)
        for k, v in answers:
            eq(v, ("r", k, 1), f"direct access to {k}")
        if not pops:
            for k in all_:
                eq(await tm[k], ("r", k, 1), f"access to {k} afterwards")
            got2 = await asyncio.wait_for(collect(tm), 500)
            check_got("pairs", got2, all_, w, f"iterating after {way}")
        for k in all_:
            if way == "keys pop" and conc:  # nobody holds the results: they may come later
                check(w.runs.get(k, 0) <= 1, f"runs for {k}: {w.runs.get(k)}")
            else:
                eq(w.runs.get(k, 0), 1, f"runs for {k}")

    return main


def thunk(make, **kw):
    return lambda: run(make, **kw)


def many(mains):
    def t():
        for what, m in mains:
            try:
                run(m)
            except Bad as e:
                raise Bad(f"{what}: {e}")
            except Exception as e:
                raise Bad(f"{what}: {e!r}")

    return t


def failing(way, kind, delays, fail):
    async def main():
        w = World(delays, [fail])
        tm = TaskMapping(w.fn, KINDS[kind](range(3)))
        make, what, pops = WAYS[way]
        got = []
        if way in ("gather", "await") or way.startswith("await") or "by" in way:
            o = await outcome(make(tm), 500)
        else:
            it = {"aiter": lambda: tm.__aiter__(), "aiter pop": lambda: tm.__aiter__(pop=True), "values": lambda: tm.values().__aiter__(), "values pop": lambda: tm.values(pop=True).__aiter__(),
                  "items": lambda: tm.items().__aiter__(), "items pop": lambda: tm.items(pop=True).__aiter__(), "map": lambda: tm.map(pop=False), "map pop": lambda: tm.map(),
                  "keys": lambda: tm.keys().__aiter__(), "keys pop": lambda: tm.keys(pop=True).__aiter__(), "map keys": lambda: tm.map(pop=False, yields="keys")}[way]()

            async def consume():
                async for x in it:
                    got.append(x)

            o = await outcome(consume(), 500)
        if what == "keys" and way != "map keys" or way == "await keys":
            eq(o[0], "ok", way)
            eq(sorted(got) if way != "await keys" else sorted(o[1]), [0, 1, 2], way)
        else:
            eq(o, ("exc", "Boom", (fail,)), f"{way} of a mapping with a failing key")
            for g in got:
                k = g if what == "keys" else g[0] if what == "pairs" else g[1]
                check(k != fail, "a failing key has no result")
                if what != "keys":
                    eq(g[1] if what == "pairs" else g, ("r", k, 1), "a result")
        for k, n in w.runs.items():
            eq(n, 1, f"runs for {k}")

    return main


def source_fails(way, delays, n):
    async def main():
        async def src():
            for k in range(n):
                await asyncio.sleep(0.5)
                yield k
            raise Boom("source")

        w = World(delays)
        tm = TaskMapping(w.fn, src())
        o = await outcome(WAYS[way][0](tm), 500)
        eq(o, ("exc", "Boom", ("source",)), f"{way} over a failing source")
        for k in range(n):
            check(w.runs.get(k, 0) <= 1, f"{k} ran {w.runs.get(k)} times")

    return main


def map_with(specs, delays, pop, yields, conc):
    async def main():
        w = World(delays)
        tm = TaskMapping(w.fn, concurrency=conc)
        got = await asyncio.wait_for(collect(tm.map(*[KINDS[k](ks) for k, ks in specs], pop=pop, yields=yields)), 500)
        keys = list(dict.fromkeys(k for _, ks in specs for k in ks))
        check_got("keys" if yields == "keys" else "pairs", got, keys, w, "map")
        for k in keys:
            eq(w.runs.get(k), 1, f"runs for {k}")
            check(w.ended.get(k) == 1, "map ends while a task runs")
        if not pop:
            eq(sorted(await asyncio.wait_for(collect(tm), 500)), sorted((k, ("r", k, 1)) for k in keys), "iterating afterwards")
            for k in keys:
                eq(w.runs.get(k), 1, f"runs for {k} afterwards")
        else:
            eq(len(tm), 0, "keys left")

    return main


def direct(n, asks, delays, conc, wait):
    """no source: keys as asked for"""

    async def main():
        w = World(delays)
        tm = TaskMapping(w.fn, concurrency=conc)
        out = []

        async def ask(t, k):
            await asyncio.sleep(t)
            x = tm[k]
            check(tm[k] is x, "one task per key")
            out.append((k, await x))

        await asyncio.wait_for(asyncio.gather(*[ask(t, k) for t, k in asks]), 500)
        for k, v in out:
            eq(v, ("r", k, 1), f"result of {k}")
        for k in {k for _, k in asks}:
            eq(w.runs[k], 1, f"runs for {k}")
        if asks:
            keys = {k for _, k in asks}
            for way in ("aiter", "items", "keys", "values", "gather", "await", "map", "items by keys"):
                make, kind, _ = WAYS[way]
                check_got(kind, await make(tm), keys, w, way)
            got = []
            async for k, v in tm.yield_completed(pop=False):
                got.append((k, v))
            check_got("pairs", got, keys, w, "yield_completed")
            k0 = min(keys)
            t = tm.pop(k0)
            eq(await t, ("r", k0, 1), "what is popped")
            check(k0 not in tm, "a popped key is gone")
            eq(await tm[k0], ("r", k0, 2), "a popped key runs again")
            got = []
            async for k, v in tm.yield_completed():
                got.append((k, v))
            eq(sorted(got), sorted((k, ("r", k, 2 if k == k0 else 1)) for k in keys), "yield_completed pop")
            eq(len(tm), 0, "keys left")
            for k in keys:
                eq(w.runs[k], 2 if k == k0 else 1, f"runs for {k}")

    return main


def two_consumers(a, b, kind, delays, late):
    async def main():
        w = World(delays)
        tm = TaskMapping(w.fn, KINDS[kind](range(4)))

        async def consume(way, t):
            await asyncio.sleep(t)
            make, what, _ = WAYS[way]
            check_got(what, await make(tm), range(4), w, way)

        await asyncio.wait_for(asyncio.gather(consume(a, 0), consume(b, late)), 500)
        for k in range(4):
            eq(w.runs[k], 1, f"runs for {k}")

    return main


def cancelled_task(kind, delays, key, when):
    """one of the tasks is cancelled by somebody: the iteration does not hang, and says so"""

    async def main():
        w = World(delays)
        tm = TaskMapping(w.fn, KINDS[kind](range(3)))
        t = asyncio.ensure_future(collect(tm))
        await asyncio.sleep(when)
        if key in tm:
            tm[key].cancel()
        o = await outcome(t, 500)
        check(o[0] in ("ok", "cancelled"), f"{o}")

    return main


def outside_loop(kind, way):
    def t():
        w = World({0: 1})
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            tm = TaskMapping(w.fn, KINDS[kind](range(3)))
        finally:
            loop.close()

        async def main():
            make, what, _ = WAYS[way]
            check_got(what, await asyncio.wait_for(make(tm), 500), range(3), w, way)
            for k in range(3):
                eq(w.runs[k], 1, f"runs for {k}")

        run(main)

    return t


def wrapped(mode):
    """functions and methods of the library's own"""

    async def main():
        runs = {}
        if mode.startswith("fn"):
            @a_sync(mode[2:])
            async def f(k, *, extra=0):
                runs[k] = runs.get(k, 0) + 1
                await asyncio.sleep(0)
                return k, extra

            g = f
        else:
            @a_sync(mode[3:])
            def f(k, *, extra=0):
                runs[k] = runs.get(k, 0) + 1
                return k, extra

            g = f
        tm = TaskMapping(g, [3, 1, 2, 1], extra=5)
        eq(sorted(await asyncio.wait_for(collect(tm), 100)), [(k, (k, 5)) for k in (1, 2, 3)], "pairs")
        eq(runs, {1: 1, 2: 1, 3: 1}, "runs")

    return lambda: run(main, external=True)


kf_runs = {}


async def key_last(a, b, key):
    kf_runs[key] = kf_runs.get(key, 0) + 1
    await asyncio.sleep(0)
    return a, b, key


def kwargs_first(n):
    """the key is not the function's first parameter: keywords given at creation come first"""

    async def main():
        runs = kf_runs
        runs.clear()
        tm = TaskMapping(key_last, range(n), a="A", b="B")
        eq(sorted(await asyncio.wait_for(collect(tm), 100)), [(k, ("A", "B", k)) for k in range(n)], "pairs")
        eq(runs, {k: 1 for k in range(n)}, "runs")

    return main


def own_typeerror(how):
    """the function fails with a TypeError about arguments: it does not run again"""

    async def main():
        runs = {}

        async def twice(a, *, b=0, **kw):
            runs[a] = runs.get(a, 0) + 1
            check(not kw, f"unknown keywords {kw}")
            if how == "text":
                raise TypeError("twice() got multiple values for argument 'a'")
            await twice(a, a=1)

        twice.__name__ = twice.__qualname__ = "twice"
        tm = TaskMapping(twice, [1, 2], b=5)
        o = await outcome(collect(tm), 100)
        eq(o[:2], ("exc", "TypeError"), "own TypeError")
        await asyncio.gather(*tm.values().__view__, return_exceptions=True)
        eq(runs, {1: 1, 2: 1}, "runs")

    return main


def leave_early(way, kind, n, delays):
    async def main():
        w = World(delays)
        tm = TaskMapping(w.fn, KINDS[kind](range(4)))
        it = {"aiter": lambda: tm.__aiter__(), "keys": lambda: tm.keys().__aiter__(), "values": lambda: tm.values().__aiter__(), "items": lambda: tm.items().__aiter__(), "map": lambda: tm.map(pop=False)}[way]()
        got = []
        async for x in it:
            got.append(x)
            if len(got) == n:
                break
        del it
        gc.collect()
        await asyncio.sleep(0.4)
        for again in ("items", "aiter", "map", "gather"):
            check_got("pairs", await asyncio.wait_for(WAYS[again][0](tm), 500), range(4), w, f"{again} after leaving {way} early")
        for k in range(4):
            eq(w.runs[k], 1, f"runs for {k}")

    return main


def rnd(seed):
    r = random.Random(seed)
    pool = list(range(8))
    specs = [(r.choice(list(KINDS)), [r.choice(pool) for _ in range(r.randint(1, 6))]) for _ in range(r.randint(1, 3))]
    specs = [(k, ks[:4] if k == "agenmix" else ks) for k, ks in specs]
    delays = {k: r.choice((0, 0, 0.3, 0.7, 1, 2, 5)) for k in pool}
    way = r.choice([w for w in WAYS if not WAYS[w][2]])
    inkeys = sorted({k for _, ks in specs for k in ks})
    asks = [(r.choice((0, 0, 0.4, 1, 3, 8)), r.choice(inkeys)) for _ in range(r.randint(0, 6))]
    conc = r.choice((None, None, 1, 2, 3))
    return sources_case(specs, delays, way, conc, asks, r.choice((0, 0, 0.6, 2, 9)))


DELAYS = [{}, {0: 2, 1: 1}, {0: 0, 1: 3, 2: 1}, {2: 2}]


def cases(tier):
    big = tier == "thorough"
    for way in WAYS:
        ms = []
        for kind in KINDS:
            for d in DELAYS:
                ms.append((f"{kind} {d}", sources_case([(kind, [0, 1, 2])], d, way)))
            ms.append((f"{kind} equal keys", sources_case([(kind, [0, 1, 0, 1])], {0: 1}, way)))
            ms.append((f"{kind} late", sources_case([(kind, [0, 1, 2])], {0: 1, 2: 2}, way, start=1.2)))
            ms.append((f"{kind} over", sources_case([(kind, [0, 1, 2])], {0: 1}, way, start=20)))
        yield f"one source, {way}", many(ms)
        ms = []
        for a, b in itertools.product(KINDS, repeat=2):
            ms.append((f"{a} {b}", sources_case([(a, [0, 1, 2]), (b, [2, 3, 0])], {0: 1, 2: 2.2}, way)))
            if big:
                for c in KINDS:
                    ms.append((f"{a} {b} {c}", sources_case([(a, [0, 1]), (b, [1, 2]), (c, [0, 3])], {0: 1, 2: 2.2}, way)))
        yield f"two sources, {way}", many(ms)
        ms = []
        for kind in ("list", "agen0", "agen1", "coro"):
            for conc in (None, 1, 2):
                ms.append((f"{kind} conc {conc}", sources_case([(kind, [0, 1, 2, 1])], {0: 2, 1: 1}, way, conc)))
                if not WAYS[way][2]:
                    for t in (0, 0.5, 1, 2.5):
                        ms.append((f"{kind} conc {conc} asked at {t}", sources_case([(kind, [0, 1, 2, 1])], {0: 2, 1: 1}, way, conc, [(t, 0), (t, 1), (t, 2), (0, 2)])))
        yield f"asked meanwhile, {way}", many(ms)
        yield f"failing key, {way}", many([(f"{kind} {f} {d}", failing(way, kind, d, f)) for kind in ("list", "agen1", "agen0") for f in range(3) for d in ({}, {0: 1, 1: 2}, {2: 3})])
        if way not in ("keys by values",):
            yield f"failing source, {way}", many([(f"{n} {d}", source_fails(way, d, n)) for n in range(3) for d in ({}, {0: 3})])
        yield f"made outside a loop, {way}", lambda way=way: [outside_loop(k, way)() for k in ("list", "agen1", "coro")]
    for pop, yields, conc in itertools.product((True, False), ("both", "keys"), (None, 2)):
        ms = [(f"{a} {d}", map_with([(a, [0, 1, 2, 0])], d, pop, yields, conc)) for a in KINDS for d in DELAYS]
        ms += [(f"{a} {b}", map_with([(a, [0, 1]), (b, [1, 2])], {0: 1}, pop, yields, conc)) for a in KINDS for b in KINDS]
        yield f"map pop={pop} {yields} {conc}", many(ms)
    for conc in (None, 1, 2):
        ms = [(f"{ts}", direct(0, [(t, k) for t, k in zip(ts, (0, 0, 1, 1, 2))], d, conc, 0)) for ts in itertools.product((0, 1), repeat=5) for d in DELAYS[:3]]
        yield f"direct {conc}", many(ms)
    nonpop = [w for w in WAYS if not WAYS[w][2]]
    for a, b in itertools.product(nonpop, repeat=2):
        if big or nonpop.index(b) in (0, nonpop.index(a)) or b in ("items", "map"):
            yield f"{a} and {b} at once", many([(f"{kind} {late}", two_consumers(a, b, kind, {0: 2, 1: 1, 3: 0.5}, late)) for kind in ("list", "agen1", "agenmix") for late in (0, 1.2)])
    yield "cancelled tasks", many([(f"{kind} {key} {t} {d}", cancelled_task(kind, d, key, t)) for kind in ("list", "agen1", "agen0") for key in range(3) for t in (0, 0.5, 1.5) for d in ({}, {0: 1, 1: 2}, {2: 3})])
    for mode in ("fnsync", "fnasync", "sfnsync", "sfnasync"):
        yield f"wrapped {mode}", wrapped(mode)
    yield "own TypeError", many([(h, own_typeerror(h)) for h in ("text", "call")])
    yield "leaving early", many([(f"{way} {kind} {n} {d}", leave_early(way, kind, n, d)) for way in ("aiter", "keys", "values", "items", "map") for kind in ("list", "agen1", "agen0") for n in (1, 2, 3) for d in DELAYS])
    yield "keywords first", many([(str(n), kwargs_first(n)) for n in (1, 2, 5)])
    for s in range(3000 if big else 300):
        yield f"random {s}", thunk(rnd(s))
