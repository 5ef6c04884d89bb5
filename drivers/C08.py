"""op sequences on a CounterLock against the specification"""
from a_sync.primitives.locks.counter import CounterLock, CounterLockCluster

from drivers.lib import *

SPACE = "all sequences of length n over {wait_for 1/2/3, set 0/1/2/3, cancel waiter 0/1, let the loop run one step}; every waiter's fate compared with the history of values; clusters of locks on sampled histories"


def player(start, use_prop):
    async def play(ops):
        c = CounterLock(start)
        high = start
        tasks, target, cancelled = [], [], []

        def look(final):
            for i, t in enumerate(tasks):
                if cancelled[i]:
                    if final:
                        check(t.done(), "cancelled waiter still pending")
                elif high >= target[i]:
                    if final:
                        check(t.done() and not t.cancelled(), f"waiter for {target[i]} not resumed with the counter at {high}")
                        eq(t.result(), True, "wait_for result")
                else:
                    check(not t.done(), f"waiter for {target[i]} resumed with the counter at {high}")

        for op in ops:
            if op[0] == "W":
                v = int(op[1])
                tasks.append(asyncio.ensure_future(c.wait_for(v)))
                target.append(v)
                cancelled.append(False)
                await asyncio.sleep(0)
            elif op[0] == "S":
                v = int(op[1])
                try:
                    if use_prop:
                        c.value = v
                    else:
                        c.set(v)
                except ValueError:
                    check(v < high, f"set({v}) refused at {high}")
                else:
                    check(v >= high, f"set({v}) accepted at {high}")
                    high = v
            elif op[0] == "X":
                i = int(op[1])
                if i < len(tasks) and not tasks[i].done():
                    tasks[i].cancel()
                    cancelled[i] = True
            else:
                await asyncio.sleep(0)
            look(False)
            eq(c.value, high, "value")
            for v in range(5):
                eq(c.is_ready(v), high >= v, f"is_ready({v})")
        await ticks(4)
        look(True)
        c.set(10)
        await ticks(4)
        for i, t in enumerate(tasks):
            check(t.done(), f"waiter for {target[i]} not resumed by set(10)")
            if not cancelled[i]:
                eq(t.result(), True, "wait_for result")

    return play


def cluster(order):
    def thunk():
        async def main():
            locks = [CounterLock(0) for _ in range(3)]
            cl = CounterLockCluster(iter(locks))
            t = asyncio.ensure_future(cl.wait_for(2))
            await ticks(3)
            for n, (i, v) in enumerate(order):
                check(not t.done(), "cluster released early")
                locks[i].set(v)
                await ticks(5)
                if all(l.value >= 2 for l in locks):
                    break
            check(t.done() and t.result() is True, "cluster not released")

        run(main)

    return thunk


def many():
    async def main():
        import random

        rnd = random.Random(5)
        c = CounterLock(0)
        ts = [(v, asyncio.ensure_future(c.wait_for(v))) for v in (rnd.randrange(1, 60) for _ in range(300))]
        await ticks(2)
        cur = 0
        while cur < 60:
            cur += rnd.randrange(1, 9)
            c.set(cur)
            await ticks(3)
            for v, t in ts:
                check(t.done() == (v <= cur), f"counter at {cur}: waiter for {v} {'done' if t.done() else 'pending'}")

    run(main)


def cases(tier):
    import itertools

    yield "many", many
    for o in itertools.permutations([(0, 2), (1, 3), (2, 2)]):
        yield f"cluster:{o}", cluster(o)
    yield "cluster-steps", cluster([(0, 1), (0, 2), (1, 1), (2, 5), (1, 2)])
    n = 5 if tier == "quick" else 6
    al = ("W1", "W2", "W3", "S0", "S1", "S2", "S3", "X0", "X1", "T")
    for name, c in explore(al, n, player(0, False)) if tier != "quick" else explore(al, n - 1, player(0, False)):
        yield name, c
    for name, c in explore(("W1", "W3", "W2", "S1", "S2", "S3", "X0"), n, player(0, True)):
        yield "p" + name, c
    for name, c in explore(("W1", "W2", "S1", "S2", "S0", "T"), n - 1, player(1, False)):
        yield "q" + name, c
