"""merging asynchronous iterators over numbers, lengths, timings and failure points of the sources, and speeds of the consumer"""
import itertools
import random

from a_sync.utils.iterators import as_yielded, exhaust_iterator, exhaust_iterators

from drivers.lib import *

SPACE = "0..3 sources x 0..3 items each x delays 0/1/2 before every item and before the end x end or failure of each x 3 speeds of the consumer; 200 random cases of up to 8 sources of up to 12 items; 1000 items at once; equal items, None, exceptions and queues as items; queue and join of exhaust_iterators"


class Boom(Exception):
    pass


class Base(BaseException):
    pass


def source(i, delays, end, log, fail=None):
    async def gen():
        for k, d in enumerate(delays):
            if d is not None:
                await asyncio.sleep(d)
            log.append((i, k))
            yield (i, k)
        if end is not None:
            await asyncio.sleep(end)
        log.append((i, "end"))
        if fail is not None:
            raise fail

    return gen()


async def outcome(aw):
    try:
        return ("ok", await aw)
    except BaseException as e:
        return ("exc", e)


class Iter:
    """an iterator that is no generator"""

    def __init__(self, g):
        self.g = g

    def __aiter__(self):
        return self

    def __anext__(self):
        return self.g.__anext__()


def merged(specs, speed, wrap=lambda g: g):
    async def main():
        log, got, errs = [], [], []
        src = []
        for i, (delays, end, fails) in enumerate(specs):
            e = (Boom if fails == 1 else Base)(i) if fails else None
            errs.append(e)
            src.append(wrap(source(i, delays, end, log, e)))

        async def consume():
            async for x in as_yielded(*src):
                got.append(x)
                if speed is not None:
                    await asyncio.sleep(speed)

        o = await outcome(consume())
        what = f"{specs} consumed at {speed}"
        for i, (delays, end, fails) in enumerate(specs):
            mine = [x for x in got if x[0] == i]
            eq(mine, [(i, k) for k in range(len(delays))], f"items of source {i} of {what}")
            check((i, "end") in log, f"source {i} of {what} did not run to its end")
        eq(len(got), sum(len(s[0]) for s in specs), f"number of items of {what}")
        if any(errs):
            check(o[0] == "exc" and any(o[1] is e for e in errs), f"{o} instead of a source's failure: {what}")
        else:
            eq(o[0], "ok", what)
        await ticks(3)

    return main


def small(n, fails, speed):
    def thunk():
        async def main():
            lens = [((), None), ((None,), None), ((1,), None), ((2, None), 1), ((None, None, 1), None), ((1, 2), 2)]
            for combo in itertools.product(lens, repeat=n):
                await merged([(d, e, f) for (d, e), f in zip(combo, fails)], speed)()

        run(main, max_steps=10_000_000)

    return thunk


def rnd(seed):
    def thunk():
        r = random.Random(seed)
        specs = []
        for i in range(r.randint(1, 8)):
            specs.append((tuple(r.choice([None, None, 0, 1, 2, 5]) for _ in range(r.randint(0, 12))), r.choice([None, 0, 3]), r.random() < 0.2))
        run(merged(specs, r.choice([None, 0, 1, 3]), r.choice([lambda g: g, Iter])), max_steps=1_000_000)

    return thunk


def many():
    run(merged([(tuple([None] * 1000), None, False), (tuple([None] * 500), 1, False)], None), max_steps=1_000_000)


def odd_items():
    async def main():
        from a_sync.primitives.queue import Queue
        from asyncio import Queue as AQ

        class Eq:
            def __eq__(self, o):
                raise Boom("compared")

            __hash__ = None

        class Falsy:
            def __bool__(self):
                return False

        items = [None, None, False, 0, Boom("a value"), Boom, asyncio.CancelledError(), StopAsyncIteration(), StopIteration(), Queue(), AQ(), Eq(), Eq(), Falsy(), [], {}, (), Ellipsis, NotImplemented]

        async def gen():
            for x in items:
                yield x

        got = []
        async for x in as_yielded(gen()):
            got.append(x)
        check(len(got) == len(items) and all(a is b for a, b in zip(got, items)), f"{got} instead of {items}")
        got = []
        async for x in as_yielded(gen(), gen()):
            got.append(x)
        check(len(got) == 2 * len(items) and all(sum(1 for y in got if y is x) == 2 * sum(1 for y in items if y is x) for x in items), f"{got}: twice {items}")

    run(main)


def failures():
    async def main():
        for first in (0, 1):
            for e in (Boom("x"), Base("y"), TimeoutError("t"), RuntimeError("r"), KeyError("k")):
                log = []
                cause = ValueError("cause")
                e.__cause__ = cause
                got = []

                async def consume():
                    async for x in as_yielded(*[source(0, (1, None, 2), 1, log, e), source(1, (None, 3), 9, log)][:: 1 if first else -1]):
                        got.append(x)

                o = await outcome(consume())
                check(o[0] == "exc" and o[1] is e, f"{o} instead of {e!r}")
                eq([x for x in got if x[0] == 0], [(0, 0), (0, 1), (0, 2)], "items before the failure")

        async def cancels():
            yield 1
            raise asyncio.CancelledError

        got = []

        async def consume2():
            async for x in as_yielded(cancels()):
                got.append(x)

        t = asyncio.ensure_future(consume2())
        await asyncio.wait([t])
        check(t.cancelled() and got == [1], f"a source that is cancelled: {t} after {got}")

    run(main)


def exhausting(lens, fail, q, join):
    def thunk():
        async def main():
            log = []
            e = Boom() if fail is not None else None
            src = [source(i, tuple([None if i % 2 else 1] * n), None, log, e if fail == i else None) for i, n in enumerate(lens)]
            queue = asyncio.Queue() if q else None
            if not q and join:
                o = await outcome(exhaust_iterators(src, queue=queue, join=True))
                check(o[0] == "exc" and isinstance(o[1], ValueError), f"join without a queue: {o}")
                for s in src:
                    await s.aclose()
                return
            t = asyncio.ensure_future(outcome(exhaust_iterators(src, queue=queue, join=join)))
            await ticks(3)
            await asyncio.sleep(50)
            for i, n in enumerate(lens):
                eq([x for x in log if x[0] == i], [(i, k) for k in range(n)] + [(i, "end")], f"source {i} is consumed to its end")
            got = []
            if q:
                while not queue.empty():
                    got.append(queue.get_nowait())
                last = got.pop() if got and not isinstance(got[-1], tuple) else None
                for i, n in enumerate(lens):
                    eq([x for x in got if x[0] == i], [(i, k) for k in range(n)], f"what source {i} put into the queue")
                eq(len(got), sum(lens), "items in the queue")
                check((last is not None) == (fail is None), f"the marker: {last}")
                if join and fail is None:
                    check(not t.done(), "it joins the queue")
                    for _ in range(len(got) + 1):
                        check(not t.done(), "it joins the queue")
                        queue.task_done()
                        await ticks(3)
            await ticks(3)
            check(t.done(), "it ends")
            o = t.result()
            check((o[0] == "exc" and o[1] is e) if e else o == ("ok", None), f"{o}: {lens} {fail} {q} {join}")

        run(main)

    return thunk


def exhaust_one():
    async def main():
        for n in range(5):
            for fail in (None, Boom()):
                log = []
                q = asyncio.Queue()
                o = await outcome(exhaust_iterator(source(0, (None, 1, 2, None)[:n], None, log, fail), queue=q))
                eq([q.get_nowait() for _ in range(q.qsize())], [(0, k) for k in range(n)], "what was put")
                check(o == ("ok", None) if fail is None else o[1] is fail, f"{o}")
                log = []
                o = await outcome(exhaust_iterator(source(0, (None, 1, 2, None)[:n], None, log, fail)))
                eq(log, [(0, k) for k in range(n)] + [(0, "end")], "consumed to the end")
                check(o == ("ok", None) if fail is None else o[1] is fail, f"{o}")

    run(main)


def two_merges():
    async def main():
        log = []

        async def consume(k):
            return [x async for x in as_yielded(source((k, 0), (None, 1, 2), 1, log), source((k, 1), (2, None), 1, log))]

        for k, got in enumerate(await asyncio.gather(*[consume(k) for k in range(4)])):
            eq(sorted(got), [((k, 0), 0), ((k, 0), 1), ((k, 0), 2), ((k, 1), 0), ((k, 1), 1)], "each merge has its own items")

    run(main)


def cases(tier):
    yield "odd items", odd_items
    yield "failures", failures
    yield "exhaust one", exhaust_one
    yield "two merges at once", two_merges
    yield "many", many
    for n in (0, 1, 2):
        for fails in itertools.product((0, 1, 2), repeat=n):
            for speed in (None, 0, 1):
                yield f"{n} sources, failing {fails}, consumer {speed}", small(n, fails, speed)
    for lens in ((), (0,), (3,), (2, 0, 3)):
        for fail in (None, *range(len(lens))):
            for q in (False, True):
                for join in (False, True):
                    yield f"exhaust {lens} fail {fail} queue {q} join {join}", exhausting(lens, fail, q, join)
    for s in range(2000 if tier == "thorough" else 200):
        yield f"random {s}", rnd(s)
    if tier == "thorough":
        for fails in itertools.product((0, 1), repeat=3):
            for speed in (None, 1):
                yield f"3 sources, failing {fails}, consumer {speed}", small(3, fails, speed)
