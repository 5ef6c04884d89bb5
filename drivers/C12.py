"""smart queues: submissions of equal and different arguments in every state of the earlier ones; priority queues: every order of submissions"""
import gc
import itertools
import random

from a_sync.primitives.queue import PriorityProcessingQueue, SmartProcessingQueue

from drivers.lib import *

SPACE = "smart: all histories of 6 (thorough 7) of submit a / submit b / submit a and drop it / let the oldest or newest execution return, fail or be cancelled / cancel the first held future / loop steps, 1 and 2 workers; random histories of 50 over 5 keys with keywords in any order; awaiting several times; priorities: all sequences of 5 of 3 priorities x 1..3 workers x incomparable arguments x with and without results, submissions while others run, random ones of 40"


class Boom(Exception):
    pass


class Odd:
    """hashable, comparable to nothing"""

    def __lt__(self, o):
        raise Boom("compared")

    __gt__ = __le__ = __ge__ = __lt__


class Smart:
    def __init__(self, n):
        self.running = []  # (key, gate, token)
        self.tokens = itertools.count()
        self.ran = {}
        self.q = SmartProcessingQueue(self.func, n)
        self.held = []  # (key, future)
        self.n = n
        self.dropped = set()
        self.outcome = {}
        self.subs = 0
        self.bits = False

    async def func(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        check(len(self.running) < self.n, "too many at a time")
        tok = next(self.tokens)
        gate = asyncio.get_running_loop().create_future()
        me = (key, gate, tok)
        self.running.append(me)
        self.ran.setdefault(key, []).append(tok)
        try:
            how = await gate
        finally:
            self.running.remove(me)
        if how == "ret":
            r = (key, tok)
            self.outcome[tok] = ("ret", r)
            return r
        e = Boom(key, tok) if how == "exc" else asyncio.CancelledError()
        self.outcome[tok] = ("exc", e)
        raise e

    async def submit(self, a, k, hold=True, how=0):
        key = (a, tuple(sorted(k.items())))
        before = [f for k2, f in self.held if k2 == key and not f.done()]
        items = self.q.qsize()
        busy = [r for r in self.running if r[0] == key]
        f = self.q.put_nowait(*a, **k) if how == 0 else self.q(*a, **k) if how == 1 else await self.q.put(*a, **k)
        check(asyncio.isfuture(f) and not f.done(), f"{f}")
        if before:
            check(self.q.qsize() == items, f"{key} is queued again while it is pending")
        for g in before:
            check(g is f, f"{key}: another future while it is pending")
        if not before:
            check(all(g is not f for k2, g in self.held), f"{key}: the future of an item that is finished, or of another one")
        if hold:
            self.held.append((key, f))
        else:
            self.dropped.add(key)

    def release(self, which, how):
        if self.running:
            g = self.running[which][1]
            if not g.done():
                g.set_result(how)

    async def finish(self):
        for _ in range(400):
            await asyncio.sleep(0)
            self.release(0, "ret")
        gens = {}
        for key, f in self.held:
            check(f.done(), f"{key}: {f} is not done")
            gens.setdefault(key, {})[id(f)] = f
        used = {}
        for key, fs in gens.items():
            live = 0
            for f in fs.values():
                if f.cancelled():
                    continue  # cancelled by its user, or its execution was
                e = f.exception()
                k2, tok = f.result() if e is None else e.args
                check(k2 == key, f"{key} got the outcome of {k2}")
                check(tok not in used, f"{key}: one execution for two submissions")
                used[tok] = f
                o = self.outcome[tok]
                check(o[1] is (f.result() if e is None else e), f"{key}: {f} instead of {o}")
                live += 1
            runs = len(self.ran.get(key, ()))
            check(runs >= live, f"{key}: {runs} runs for {live} finished submissions")
            if key not in self.dropped:
                eq(runs, len(fs), f"runs of {key}")
        eq(self.q._unfinished_tasks, 0, "unfinished")
        eq(len(self.q._futs), 0, "registered futures")
        w = self.q._workers
        await reap([*w._workers, w])


async def play(ops, n=1):
    s = Smart(n)
    for op in ops:
        if op in "ab":
            await s.submit((op,), {})
        elif op == "d":
            await s.submit(("a",), {}, False)
        elif op in "rec":
            s.release(0, {"r": "ret", "e": "exc", "c": "cancel"}[op])
            await ticks(4)
        elif op == "n":
            s.release(-1, "ret")
            await ticks(4)
        elif op == "x":
            live = [f for _, f in s.held if not f.done()]
            if live:
                live[0].cancel()
        elif op == "t":
            await ticks(2)
    await s.finish()


async def play2(ops):
    await play(ops, 2)


def rnd(seed):
    def thunk():
        r = random.Random(seed)

        async def main():
            s = Smart(r.randint(1, 4))
            for _ in range(50):
                o = r.random()
                if o < 0.5:
                    a = r.choice([(), (1,), (2,), (1, 2), ((1, 2),)])
                    k = r.choice([{}, {"x": 1}, {"x": 1, "y": 2}, {"y": 2, "x": 1}, {"y": 1}])
                    await s.submit(a, k, r.random() < 0.8, r.randint(0, 2))
                elif o < 0.75:
                    s.release(r.choice([0, -1]), r.choice(["ret", "ret", "exc", "cancel"]))
                    await ticks(r.randint(0, 4))
                elif o < 0.8:
                    live = [f for _, f in s.held if not f.done()]
                    if live:
                        r.choice(live).cancel()
                else:
                    await ticks(r.randint(1, 3))
            await s.finish()

        run(main, max_steps=1_000_000)

    return thunk


def odd_arguments():
    async def main():
        s = Smart(1)
        a = [(Odd(),) for _ in range(6)]
        s.bits = True
        runs = []

        async def func(x, **k):
            runs.append(x)
            await asyncio.sleep(1)
            return x

        q = SmartProcessingQueue(func, 2)
        fs = [q.put_nowait(*x) for x in a]
        waiters = [asyncio.ensure_future(asyncio.wait([f])) for f in fs for _ in range(2)]
        fs += [q.put_nowait(*x) for x in a]
        await asyncio.wait_for(asyncio.wait(fs), 100)
        for f, x in zip(fs, a + a):
            check(f.result() is x[0], "own outcome")
        eq(len(runs), 6, "runs")
        await reap([*q._workers._workers, q._workers, *waiters])

    run(main)


def awaited():
    async def main():
        runs = []

        async def func(x):
            runs.append(x)
            await asyncio.sleep(1)
            if x == 3:
                raise Boom(x)
            return [x]

        q = SmartProcessingQueue(func, 2)

        async def user(x, d):
            await asyncio.sleep(d)
            try:
                return await q.put_nowait(x)
            except Boom as e:
                return e

        got = await asyncio.gather(*[user(x, d) for x in range(5) for d in (0, 0, 0.5, 2.2)])
        for x in range(5):
            g = got[4 * x: 4 * x + 4]
            check(g[0] is g[1] is g[2], f"{x}: {g}")
            check(g[0] == [x] if x != 3 else g[0].args == (3,), f"{x}: {g}")
            check(runs.count(x) == len({id(r) for r in g}), f"{runs.count(x)} runs of {x} for {g}")
        # finished: a new submission runs again
        for x in range(5):
            n = runs.count(x)
            await user(x, 0)
            eq(runs.count(x), n + 1, f"runs of {x}")
        await reap([*q._workers._workers, q._workers])

    run(main)


def drops():
    async def main():
        for n in (1, 2):
            runs = []

            async def func(x):
                runs.append(x)
                await asyncio.sleep(1)
                return x

            q = SmartProcessingQueue(func, n)
            fs = {}
            for x in range(12):
                f = q.put_nowait(x)
                if x % 3:
                    fs[x] = f
                f = None
            gc.collect()
            await asyncio.wait_for(q.join(), 100)
            for x, f in fs.items():
                check(f.result() == x and runs.count(x) == 1, f"{x}: {f}")
            await reap([*q._workers._workers, q._workers])

    run(main)


# ---------------------------------------------------------------- priorities
async def priorities(n, prios, arg, data, late=()):
    started, gates = [], {}

    async def func(i, *a, **k):
        started.append(i)
        gates[i] = asyncio.get_running_loop().create_future()
        return await gates[i]

    q = PriorityProcessingQueue(func, n, return_data=data)
    blockers = [q.put_nowait(min(prios, default=0), ("b", j)) for j in range(n)]
    await ticks(3)
    eq(len(started), n, "all workers are busy")
    del started[:]
    waiting, futs = [], {}
    late = list(late)

    def put(i, p):
        futs[i] = q.put_nowait(p, i, *(arg(i) if arg else ()), **({"k": arg(i)} if arg else {}))
        waiting.append((p, i))

    for i, p in enumerate(prios):
        put(i, p)
    open_ = [("b", j) for j in range(n)]
    k = len(prios)
    while open_:
        x = open_.pop(0)
        check(not gates[x].done(), "")
        seen = len(started)
        gates[x].set_result(("out", x))
        await ticks(5)
        if waiting:
            best = min(waiting, key=lambda w: w[0])
            best = next(w for w in waiting if w[0] == best[0])
            eq(started[seen:], [best[1]], f"what starts next of {waiting}")
            waiting.remove(best)
            open_.append(best[1])
        else:
            eq(started[seen:], [], "nothing more to start")
        if late and len(started) % 2 == 0:
            put(k, late.pop(0))
            k += 1
            if not open_ or len(open_) < n:
                await ticks(5)
                if len(started) > seen + 1 or (started and started[-1] == k - 1):
                    waiting.remove((waiting[-1]))
                    open_.append(k - 1)
    await asyncio.wait_for(q.join(), 10)
    for i, f in futs.items():
        if data:
            eq(f.result(), ("out", i), f"outcome of {i}")
        else:
            check(f is None, "no future")
    w = q._workers
    await reap([*w._workers, w])


ARGS = {"none": None, "dict": lambda i: ({"i": i},), "odd": lambda i: (Odd(),), "mixed": lambda i: ((None, 1, "x", object())[i % 4],)}


def prio(n, length, arg, data):
    def thunk():
        async def main():
            for p in itertools.product((0, 1, 2), repeat=length):
                await priorities(n, p, ARGS[arg], data)

        run(main, max_steps=100_000_000)

    return thunk


def prio_rnd(seed):
    def thunk():
        r = random.Random(seed)
        pool = r.choice([[0, 1, 2, 3], [-1.5, 0, 2.5], [(0, "a"), (0, "b"), (1, "a")], ["a", "b"], [0]])
        run(lambda: priorities(r.randint(1, 4), [r.choice(pool) for _ in range(r.randint(0, 40))], ARGS[r.choice(list(ARGS))], r.random() < 0.7), max_steps=1_000_000)

    return thunk


def prio_late():
    async def main():
        for n in (1, 2):
            for p in itertools.product((0, 1), repeat=3):
                for late in itertools.product((0, 1), repeat=2):
                    order = []

                    async def func(i):
                        order.append(i)
                        await asyncio.sleep(1)

                    q = PriorityProcessingQueue(func, n)
                    fs = [await q.put(0, ("b", j)) for j in range(n)]
                    fs += [q.put_nowait(x, i) for i, x in enumerate(p)]
                    await asyncio.sleep(0.5)
                    fs += [q.put_nowait(x, 3 + i) for i, x in enumerate(late)]
                    await asyncio.wait_for(q.join(), 100)
                    allp = list(p) + list(late)
                    eq([x for x in order if not isinstance(x, tuple)], sorted(range(5), key=lambda i: allp[i]), f"order of {p} then {late}, {n} workers")
                    await reap([*q._workers._workers, q._workers])

    run(main, max_steps=10_000_000)


def cases(tier):
    yield "odd arguments", odd_arguments
    yield "awaited", awaited
    yield "drops", drops
    yield "late priorities", prio_late
    for arg in ARGS:
        for data in (True, False):
            for n in (1, 2, 3):
                yield f"priorities {n} {arg} {data}", prio(n, 5 if tier == "thorough" else 4, arg, data)
    for s in range(2000 if tier == "thorough" else 100):
        yield f"smart random {s}", rnd(s)
        yield f"priorities random {s}", prio_rnd(s)
    al = ["a", "b", "d", "r", "e", "c", "x", "t"]
    yield from ((f"1 {n}", t) for n, t in explore(al, 6 if tier == "thorough" else 4, play))
    yield from ((f"2 {n}", t) for n, t in explore(al[:1] + al[2:] + ["n"], 5 if tier == "thorough" else 3, play2))
