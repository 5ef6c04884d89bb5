"""processing queues under histories of submissions of every outcome, with futures that are held, dropped or cancelled"""
import gc
import itertools
import random

from a_sync.primitives.queue import PriorityProcessingQueue, ProcessingQueue, SmartProcessingQueue

from drivers.lib import *

SPACE = "histories of 4 (thorough 5) of 9 kinds of submission (value / error / its own CancelledError / InvalidStateError / TimeoutError, at once or later; future held, dropped, or cancelled before or while it runs) x 1..3 workers x ProcessingQueue, with and without results, PriorityProcessingQueue, SmartProcessingQueue; random histories of 40; puts while workers wait, calls, joins"


class Boom(Exception):
    pass


class Falsy(Exception):
    def __bool__(self):
        return False


OUT = {
    "v": lambda i: ("ret", i),
    "n": lambda i: ("ret", None),
    "e": lambda i: ("exc", Boom(i)),
    "c": lambda i: ("exc", asyncio.CancelledError()),
    "i": lambda i: ("exc", asyncio.InvalidStateError("mine")),
    "r": lambda i: ("exc", ReferenceError("mine")),
    "t": lambda i: ("exc", asyncio.TimeoutError("mine")),
    "f": lambda i: ("exc", Falsy()),
    "q": lambda i: ("exc", asyncio.QueueEmpty()),
}
# submissions: outcome, then how long it takes, then what becomes of the future (h held, d dropped, x cancelled at once, y cancelled while it runs)
KINDS = ["v0h", "v1h", "e0h", "e1h", "c0h", "c1h", "v1d", "v1x", "v1y", "e1y", "i0h", "t1h", "e1d", "c1d"]


def make(kind, n, func):
    if kind == "nodata":
        return ProcessingQueue(func, n, return_data=False)
    return {"plain": ProcessingQueue, "prio": PriorityProcessingQueue, "smart": SmartProcessingQueue}[kind](func, n)


async def history(kind, n, subs, spread, puts="nowait"):
    runs, active, peak = [], set(), [0]
    outs = {}
    items = {}

    async def func(i, *a, **k):
        check(i not in active, f"item {i} runs twice at a time")
        runs.append(i)
        active.add(i)
        peak[0] = max(peak[0], len(active))
        try:
            eq((a, k), items[i], f"arguments of item {i}")
            s = subs[i]
            if s[1] != "0":
                await asyncio.sleep(int(s[1]))
            k, x = outs[i]
            if k == "ret":
                return x
            raise x
        finally:
            active.discard(i)

    q = make(kind, n, func)
    futs = {}
    cancelled = set()
    for i, s in enumerate(subs):
        outs[i] = OUT[s[0]](i)
        items[i] = (("a", i), {"kw": [i]}) if kind != "smart" else (("a", i), {"kw": i})
        args = (i, *items[i][0])
        kw = items[i][1]
        if kind == "prio":
            args = (0, *args)
        f = q.put_nowait(*args, **kw) if puts == "nowait" else q(*args, **kw) if puts == "call" else await q.put(*args, **kw)
        if kind == "nodata":
            check(f is None, "no future without results")
        else:
            check(asyncio.isfuture(f), f"{f!r}")
            if s[2] != "d":
                futs[i] = f
            if s[2] == "x":
                f.cancel()
                cancelled.add(i)
            if s[2] == "y":
                asyncio.get_running_loop().call_later(0.5, f.cancel)
        f = None
        if spread:
            await ticks(spread)
    gc.collect(0) if False else None
    t = asyncio.ensure_future(q.join())
    await asyncio.sleep(100)
    what = f"{kind}, {n} workers, {' '.join(subs)}"
    skippable = {i for i, s in enumerate(subs) if kind == "smart" and s[2] == "d"}
    for i in range(len(subs)):
        eq(runs.count(i) if i not in skippable else min(1, runs.count(i)), 1 if i not in skippable else runs.count(i), f"runs of item {i} ({what})")
    check(t.done() and not t.cancelled(), f"join() does not end: {q._unfinished_tasks} unfinished ({what})")
    eq(q._unfinished_tasks, 0, f"unfinished ({what})")
    check(peak[0] <= n, f"{peak[0]} items at a time ({what})")
    if len(subs) > 0 and not skippable:
        check(peak[0] >= 1, "nothing ran")
    for i, f in futs.items():
        check(f.done(), f"the future of item {i} is not done ({what})")
        k, x = outs[i]
        s = subs[i]
        if s[2] == "x" or (s[2] == "y" and f.cancelled()):
            check(f.cancelled(), f"the future of item {i} was cancelled: {f}")
        elif k == "ret":
            check(not f.cancelled() and f.exception() is None and f.result() is x, f"item {i}: {f} instead of {x} ({what})")
        elif isinstance(x, asyncio.CancelledError):
            check(f.cancelled(), f"item {i}: {f} ({what})")
        else:
            check(not f.cancelled() and f.exception() is x, f"item {i}: {f} instead of {x!r} ({what})")
    # it still works
    subs2 = list(subs) + ["v0h"] * (n + 1)
    subs = subs2
    for i in range(len(subs) - n - 1, len(subs)):
        outs[i] = ("ret", i)
        items[i] = ((), {})
        f = q.put_nowait(*((0, i) if kind == "prio" else (i,)))
        futs[i] = f
    await asyncio.sleep(5)
    for i in range(len(subs) - n - 1, len(subs)):
        eq(runs.count(i), 1, f"runs of item {i}, put later ({what})")
        if kind != "nodata":
            check(futs[i].done() and futs[i].result() == i, f"item {i}, put later: {futs[i]} ({what})")
    w = q._workers
    await reap([*w._workers, w])


def group(kind, n, first, length):
    def thunk():
        async def main():
            for rest in itertools.product(KINDS, repeat=length - 1):
                await history(kind, n, [first, *rest], 0)
            if length > 2:
                for rest in itertools.product(KINDS, repeat=length - 2):
                    await history(kind, n, [first, *rest], 3)

        run(main, max_steps=100_000_000)

    return thunk


def rnd(seed):
    def thunk():
        r = random.Random(seed)
        subs = [r.choice("vneciftvrq") + r.choice("0123") + r.choice("hhhdxy") for _ in range(r.randint(1, 40))]
        run(lambda: history(r.choice(["plain", "nodata", "prio", "smart"]), r.randint(1, 6), subs, r.choice([0, 0, 1, 3]), r.choice(["nowait", "put", "call"] if True else ["nowait"])), max_steps=1_000_000)

    return thunk


def order():
    async def main():
        for kind in ("plain", "nodata"):
            for n in (1, 2, 4):
                started = []

                async def func(i):
                    started.append(i)
                    await asyncio.sleep(1)

                q = make(kind, n, func)
                fs = [q.put_nowait(i) for i in range(10)]
                await q.join()
                eq(started, list(range(10)), "items start in the order they were put")
                await reap([*q._workers._workers, q._workers])

    run(main)


def crossing():
    async def main():
        """results and futures do not cross, whatever finishes first"""
        for n in (2, 3, 5):
            for perm in itertools.permutations(range(5)):
                async def func(i, d=0):
                    await asyncio.sleep(d)
                    if i % 2:
                        raise Boom(i)
                    return i

                q = ProcessingQueue(func, n)
                fs = [q(i, d=perm[i]) for i in range(5)]
                await asyncio.wait(fs)
                for i, f in enumerate(fs):
                    check(f.exception().args == (i,) if i % 2 else f.result() == i, f"future {i}: {f}")
                await reap([*q._workers._workers, q._workers])

    run(main, max_steps=10_000_000)


def dropped_all():
    async def main():
        for kind in ("plain", "prio"):
            ran = []

            async def func(i):
                await asyncio.sleep(0)
                ran.append(i)
                if i % 3 == 1:
                    raise Boom(i)
                if i % 3 == 2:
                    raise asyncio.CancelledError
                return i

            q = make(kind, 2, func)
            for i in range(20):
                q.put_nowait(*((0, i) if kind == "prio" else (i,)))
            gc.collect()
            await asyncio.wait_for(q.join(), 50)
            eq(sorted(ran), list(range(20)), "abandoned items are processed")
            await reap([*q._workers._workers, q._workers])

    run(main)


def cases(tier):
    yield "order", order
    yield "no crossing", crossing
    yield "all abandoned", dropped_all
    for s in range(4000 if tier == "thorough" else 400):
        yield f"random {s}", rnd(s)
    for kind in ("plain", "nodata", "prio", "smart"):
        for n in (1, 2):
            for first in KINDS:
                yield f"{kind} {n} {first}", group(kind, n, first, 3)
    if tier == "thorough":
        for kind in ("plain", "nodata", "prio", "smart"):
            for first in KINDS:
                yield f"{kind} 2 {first} 4", group(kind, 2, first, 4)
