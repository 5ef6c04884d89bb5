"""caching, concurrency limit and rate limit on functions and methods: order, values, applied once, everything released"""
import itertools

from aiolimiter import AsyncLimiter

from drivers.dual import *

SPACE = "all subsets of {cache, semaphore, rate} in int and object form, on functions, methods and class-defined modifiers; hits under exhausted limits, peaks, rates on a virtual clock, failing and cancelled calls"


def holder(style, mods, body, log):
    """-> a coroutine function (args -> awaitable) carrying the modifiers"""

    async def fn(x, *, k=0):
        return await body(x, k)

    if style == "function":
        return a_sync.a_sync(**mods)(fn)
    if style == "call":
        return a_sync.a_sync(fn, **mods)
    if style == "method":

        class K(a_sync.ASyncGenericBase):
            def __init__(self):
                a_sync.ASyncGenericBase.__init__(self)
                self.sync = False

            @a_sync.a_sync(**mods)
            async def m(self, x, *, k=0):
                return await body(x, k)

        o = K()
        log.append(o)
        return o.m
    if style == "instance-late":  # every access anew, as users write it

        class K2(a_sync.ASyncGenericBase):
            def __init__(self):
                a_sync.ASyncGenericBase.__init__(self)
                self.sync = False

            @a_sync.a_sync(**mods)
            async def m(self, x, *, k=0):
                return await body(x, k)

        o = K2()
        return lambda *a, **kw: o.m(*a, **kw)
    if style == "class":
        import types

        def fill(ns):
            async def m(self, x, *, k=0):
                return await body(x, k)

            def __init__(self):
                a_sync.ASyncGenericBase.__init__(self)
                self.sync = False

            ns["m"], ns["__init__"] = m, __init__

        C = types.new_class("C", (a_sync.ASyncGenericBase,), {}, lambda ns: (fill(ns), ns.update(mods)))
        o = C()
        log.append(o)
        return o.m


STYLES = ("function", "call", "method", "instance-late", "class")


def subset(style, cache, sem, rate, objs):
    """order, once-only application, values, pass-through for one configuration"""

    def thunk():
        async def main():
            running = peak = 0
            runs = []
            gates = {}

            async def body(x, k):
                nonlocal running, peak
                running += 1
                peak = max(peak, running)
                runs.append(x)
                try:
                    if x in gates:
                        await gates[x]
                    if x == "bad":
                        raise Boom(x)
                    return (x, k)
                finally:
                    running -= 1

            mods = {}
            s = l = None
            if cache:
                mods["ram_cache_maxsize"] = 100
            if sem:
                s = mods["semaphore"] = asyncio.Semaphore(2) if objs == "asyncio" else a_sync.Semaphore(2) if objs else 2
            if rate:
                l = mods["runs_per_minute"] = AsyncLimiter(3, 60) if objs else 3
            keep = []
            f = holder(style, mods, body, keep)
            loop = asyncio.get_running_loop()
            t0 = loop.time()
            # pass-through
            eq(await f("a", k=5), ("a", 5), "outcome")
            o = await outcome(f("bad"))
            eq(o, ("exc", "Boom", ("bad",)), "outcome")
            n0 = len(runs)
            eq(n0, 2, "runs")
            eq(await f("a", k=5), ("a", 5), "outcome")
            eq(len(runs), 2 if cache else 3, "runs: cached call")
            if not cache:
                check(loop.time() == t0, "a call below the rate limit was delayed")
            # every third uncached call has to wait for the rate limit now
            used = 2 if cache else 3
            for i in range(4):
                await f(("seq", i))
            used += 4
            if rate:
                want = (used - 3) * 20
                check(want - 1 <= loop.time() - t0 <= want + 1, f"{used} calls at 3 per minute took {loop.time() - t0} s, expected {want}")
                await asyncio.sleep(120)
            else:
                check(loop.time() == t0, "delayed although no rate limit is configured")
            # concurrency
            gates.update({("g", i): loop.create_future() for i in range(4)})
            ts = [asyncio.ensure_future(f(("g", i))) for i in range(4)]
            await ticks(12)
            lim = min(x for x in (2 if sem else 9, 3 if rate else 9, 4) if x)
            eq(running, lim, "bodies running at once")
            # a hit needs no permit
            if cache:
                eq(await asyncio.wait_for(f("a", k=5), 0.5), ("a", 5), "cached answer while all permits are taken")
            if sem and rate and objs:
                before = l._level
                check(l.has_capacity(1), "calls waiting for the semaphore used up the rate limit")
                await ticks(5)
            # cancel one waiting for the limits: does not run, permit intact
            if sem or rate:
                ts[3].cancel()
                await ticks(8)
                check(ts[3].cancelled(), "cancelled waiter")
            # cancel one running: permit released
            ts[0].cancel()
            await ticks(8)
            for g in gates.values():
                g.done() or g.set_result(None)
            await asyncio.sleep(240)
            check(ts[0].cancelled() and ts[1].done() and ts[2].done(), "calls left behind")
            if not cache:  # alru_cache shields what it computes
                check((("g", 3) in runs) == (not (sem or rate)), "a cancelled call ran")
            gates.clear()
            peak = 0
            await asyncio.gather(*[f(("again", i)) for i in range(6)])
            if sem:
                check(peak <= 2, f"{peak} bodies at once")
            # all permits are back
            g2 = {("h", i): loop.create_future() for i in range(2)}
            gates.update(g2)
            await asyncio.sleep(240)
            ts = [asyncio.ensure_future(f(("h", i))) for i in range(2)]
            await ticks(12)
            eq(running, 2, "two calls fit after failures and cancellations")
            for g in g2.values():
                g.set_result(None)
            await asyncio.gather(*ts)

        run(main)

    return thunk


def cache_value(style, which):
    def thunk():
        async def main():
            runs = []

            async def body(x, k):
                runs.append(x)
                return x

            keep = []
            if which == "maxsize":
                f = holder(style, {"ram_cache_maxsize": 2}, body, keep)
                for x in (1, 2, 1, 2, 3, 1, 2):
                    await f(x)
                eq(runs, [1, 2, 3, 1, 2], "runs with maxsize 2")
            elif which == "unbounded":
                f = holder(style, {"cache_type": "memory"}, body, keep)
                for x in list(range(400)) + list(range(400)):
                    await f(x)
                eq(len(runs), 400, "runs with an unbounded cache")
            elif which == "ttl":
                f = holder(style, {"ram_cache_ttl": 10}, body, keep)
                await f(1)
                await asyncio.sleep(9)
                await f(1)
                eq(len(runs), 1, "runs within the ttl")
                await asyncio.sleep(2)
                await f(1)
                eq(len(runs), 2, "runs after the ttl")
            elif which == "typed":
                f = holder(style, {"cache_typed": True}, body, keep)
                await f(1)
                await f(1.0)
                await f(True)
                await f(1)
                eq(len(runs), 3, "runs with typed keys")
            elif which == "untyped":
                f = holder(style, {"cache_type": "memory"}, body, keep)
                await f(1, k=2)
                await f(1.0, k=2)
                eq(len(runs), 1, "runs with untyped keys")

        run(main)

    return thunk


def shared(style):
    """one semaphore object configured for two functions limits them together; each call takes one permit"""

    def thunk():
        async def main():
            s = a_sync.Semaphore(1)
            running = peak = 0

            async def body(x, k):
                nonlocal running, peak
                running += 1
                peak = max(peak, running)
                await asyncio.sleep(1)
                running -= 1

            keep = []
            f, g = holder(style, {"semaphore": s}, body, keep), holder(style, {"semaphore": s}, body, keep)
            await asyncio.wait_for(asyncio.gather(*[h(i) for i in range(3) for h in (f, g)]), 100)
            eq(peak, 1, "bodies at once")

        run(main)

    return thunk


def long_running(style):
    """a limit still holds when calls take longer than the method cache keeps an unused bound method"""

    def thunk():
        async def main():
            running = peak = 0

            async def body(x, k):
                nonlocal running, peak
                running += 1
                peak = max(peak, running)
                await asyncio.sleep(1000)
                running -= 1

            keep = []
            f = holder(style, {"semaphore": 1}, body, keep)
            ts = []
            for i in range(3):
                ts.append(asyncio.ensure_future(f(i)))
                await asyncio.sleep(400)
            await asyncio.gather(*ts)
            eq(peak, 1, "bodies at once with semaphore=1")

        run(main)

    return thunk


def sync_fn(style):
    """a synchronous function called asynchronously: the limits apply to it as well"""

    def thunk():
        async def main():
            running = peak = 0
            lock = threading.Lock()

            def body(x):
                nonlocal running, peak
                with lock:
                    running += 1
                    peak = max(peak, running)
                time.sleep(0.02)
                with lock:
                    running -= 1
                if x == 2:
                    raise Boom(x)
                return x

            f = a_sync.a_sync(default="async", semaphore=2, executor=a_sync.ThreadPoolExecutor(6))(body)
            got = await asyncio.gather(*[f(i) for i in range(7)], return_exceptions=True)
            eq(peak, 2, "bodies at once")
            eq([g for i, g in enumerate(got) if i != 2], [0, 1, 3, 4, 5, 6], "results")
            check(isinstance(got[2], Boom), "the exception")

        run(main, external=True)

    return thunk


def cases(tier):
    for style in STYLES:
        for cache, sem, rate in itertools.product((0, 1), repeat=3):
            for objs in ((0, 1, "asyncio") if sem else (0, 1) if rate else (0,)):
                yield f"subset:{style}:{cache}{sem}{rate}:{objs}", subset(style, cache, sem, rate, objs)
        for which in ("maxsize", "unbounded", "ttl", "typed", "untyped"):
            yield f"cache:{style}:{which}", cache_value(style, which)
        yield f"shared:{style}", shared(style)
        yield f"long:{style}", long_running(style)
    yield "syncfn", sync_fn("function")
