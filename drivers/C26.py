"""ThreadsafeSemaphore: op sequences in one thread; interleaved use from several threads; inspection in every state"""
import contextlib
import io

from drivers.semlib import *

SPACE = "all sequences of length n over {acquire, async with, release, cancel, inspect, step} in one thread for 1 and 2 permits; two/three threads stepping alternately through acquire/release scripts; len/repr/locked in every state; mixed entry points"


class Th:
    """a thread with an event loop of its own, driven step by step from the main thread"""

    def __init__(self):
        import queue

        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.loop, daemon=True, name="worker")
        self.t.start()

    def loop(self):
        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        while True:
            f = self.q.get()
            if f is None:
                break
            try:
                self.r.put(("ok", loop.run_until_complete(f())))
            except BaseException as e:
                self.r.put(("exc", e))
        loop.close()

    def do(self, f):
        self.q.put(f)
        try:
            k, v = self.r.get(timeout=20)
        except Exception:
            raise Bad("a thread hangs")
        if k == "exc":
            if isinstance(v, Bad):
                raise v
            raise Bad(f"operation in a thread failed: {v!r}")
        return v

    def stop(self):
        self.q.put(None)
        self.t.join(5)


def threads(cap, nthreads, script):
    """script: sequence of (thread, op); the oracle is an independent counter per thread"""

    def thunk():
        sem = ThreadsafeSemaphore(cap)
        ths = [Th() for _ in range(nthreads)]
        held = [0] * nthreads
        own = [None] * nthreads
        waiting = [[] for _ in range(nthreads)]
        try:
            for i, op in script:
                async def step():
                    if op == "A":
                        t = asyncio.ensure_future(sem.acquire())
                        await ticks(4)
                        if held[i] < cap and not waiting[i]:
                            check(t.done() and not t.exception(), f"thread {i}: {held[i]} of {cap} held by it but acquire blocks")
                            held[i] += 1
                        else:
                            check(not t.done(), f"thread {i}: over-admission")
                            waiting[i].append(t)
                    elif op == "R":
                        if held[i]:
                            sem.release()
                            await ticks(4)
                            if waiting[i]:
                                t = waiting[i].pop(0)
                                check(t.done() and not t.exception(), f"thread {i}: the permit released did not reach its waiter")
                            else:
                                held[i] -= 1
                    elif op == "X":
                        if waiting[i]:
                            t = waiting[i].pop()
                            t.cancel()
                            await ticks(4)
                            check(t.done(), "cancelled waiter still there")
                    elif op == "C":
                        # context manager and plain release act on the same limit
                        if held[i] < cap and not waiting[i]:
                            async with sem:
                                check(sem.locked() == (held[i] + 1 >= cap), f"thread {i}: locked() inside async with")
                    check(sem.locked() == (held[i] >= cap), f"thread {i}: locked() is {sem.locked()} with {held[i]} of {cap} held by it")
                    check(sem.semaphore is sem.semaphore, "semaphore property")
                    check(sem.semaphore._value == cap - held[i], f"thread {i}: value {sem.semaphore._value} with {held[i]} of {cap} held")
                    check(len(sem) == sum(map(len, waiting)), f"len is {len(sem)} with {sum(map(len, waiting))} waiting")
                    check(isinstance(repr(sem), str), "repr")
                    own[i] = sem.semaphore
                    check(len({id(o) for o in own if o is not None}) == sum(o is not None for o in own), "threads share a semaphore")

                ths[i].do(step)
            for i in range(nthreads):
                async def fin():
                    for t in waiting[i]:
                        t.cancel()
                    await ticks(4)
                    for _ in range(held[i]):
                        sem.release()
                    for _ in range(cap):
                        t = asyncio.ensure_future(sem.acquire())
                        await ticks(3)
                        check(t.done(), f"thread {i}: a permit was lost")
                    t = asyncio.ensure_future(sem.acquire())
                    await ticks(3)
                    check(not t.done(), f"thread {i}: a permit was invented")
                    t.cancel()
                    await ticks(3)

                ths[i].do(fin)
        finally:
            for t in ths:
                t.stop()

    return thunk


def fresh_states():
    async def main():
        s = ThreadsafeSemaphore(2, name="n")
        check(len(s) == 0 and isinstance(repr(s), str), "len/repr of a new one")
        check(not s.locked(), "new one locked")
        async with s:
            check(len(s) == 0, "len")
            repr(s)
        check(len(ThreadsafeSemaphore(0)) == 0, "len of 0")
        z = ThreadsafeSemaphore(0)
        check(z.locked(), "limit 0 not locked")

        @s
        async def f():
            return 1

        eq(await f(), 1, "decorated")
        check("f" in repr(s), "repr names what it decorates")

    run(main)


def decorated_threads(cap, n):
    """a decorated function runs in 3 threads at once; each thread has its own limit"""

    def thunk():
        sem = ThreadsafeSemaphore(cap)
        cur = threading.local()
        bar = threading.Barrier(3)
        errs, peaks = [], []

        @sem
        async def f():
            cur.n = getattr(cur, "n", 0) + 1
            cur.peak = max(getattr(cur, "peak", 0), cur.n)
            await asyncio.sleep(0)
            await asyncio.sleep(0)
            cur.n -= 1

        def work():
            try:
                bar.wait(10)

                async def main():
                    await asyncio.wait_for(asyncio.gather(*(f() for _ in range(n))), 30)

                asyncio.new_event_loop().run_until_complete(main())
                peaks.append(cur.peak)
            except BaseException as e:
                errs.append(repr(e))

        ts = [threading.Thread(target=work, daemon=True, name="worker") for _ in range(3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
        check(not errs, f"{errs}")
        check(peaks == [min(cap, n)] * 3, f"peaks {peaks} with limit {cap}")

    return thunk


def cases(tier):
    import itertools

    n = 5 if tier == "quick" else 6
    yield "fresh", fresh_states
    for cap in (1, 2):
        yield f"decorated:{cap}", decorated_threads(cap, 5)
    # scripts first: two threads
    for cap in (1, 2):
        for ops in itertools.product("ARXC", repeat=3):
            sc = [(0, "A"), (0, ops[0]), (1, "A"), (1, ops[1]), (0, ops[2]), (1, "A"), (0, "R"), (1, "R"), (0, "A"), (1, "C"), (0, "C")]
            yield f"threads:{cap}:{''.join(ops)}", threads(cap, 2, sc)
    import random

    for seed in range(20 if tier == "quick" else 200):
        rnd = random.Random(seed)
        yield f"threads3:{seed}", threads(rnd.choice((1, 2)), 3, [(rnd.randrange(3), rnd.choice("AAARRXC")) for _ in range(24)])
    for cap in (1, 2):
        for name, c in explore(("A", "W", "R", "X1", "X2", "L", "T"), n, player(lambda cap=cap: ThreadsafeSemaphore(cap), cap)):
            yield f"{cap}:{name}", c
    for cap in (1, 3):
        for seed in range(4):
            yield f"dec1:{cap}:{seed}", decorated(lambda cap=cap: ThreadsafeSemaphore(cap), cap, 14, seed)
