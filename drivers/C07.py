"""op sequences on PrioritySemaphore: over-admission, conservation, admission order by priority and arrival"""
from drivers.semlib import *

SPACE = "all sequences of length n over {acquire / async with at priorities -2..3 and none, release, cancel acquirer 1..3, step, settle} for 1 and 2 permits; random longer histories; random decorated workloads"


def long(cap, seed, n, prios):
    def thunk():
        import random

        rnd = random.Random(seed)
        ops = []
        for i in range(n):
            ops.append(rnd.choice([f"A{rnd.choice(prios)}", f"A{rnd.choice(prios)}", "A", "R", "R", "T", "S", f"X{rnd.randrange(max(1, n // 3))}"]))
        async def main():
            await player(lambda: PrioritySemaphore(cap), cap, True, False)(ops)

        try:
            run(main)
        except Bad as e:
            raise Bad(f"{' '.join(ops)}: {e}")

    return thunk


def order(cap, prios):
    """all wait, then one release after the other: admission in order of (priority, arrival)"""

    def thunk():
        async def main():
            s = PrioritySemaphore(cap)
            for _ in range(cap):
                await s.acquire()
            got = []

            async def w(i, p):
                await s[p].acquire()
                got.append(i)

            ts = [asyncio.ensure_future(w(i, p)) for i, p in enumerate(prios)]
            await ticks(5)
            check(not got, "over-admission")
            want = sorted(range(len(prios)), key=lambda i: (-1 if prios[i] is None else prios[i], i))
            for k in range(len(prios)):
                s.release()
                await ticks(5)
                check(got == want[: k + 1], f"priorities {prios}: admitted {got}, expected {want[: k + 1]}")

        run(main)

    return thunk


def handles():
    """a manager object kept while its queue empties is still usable"""

    async def main():
        s = PrioritySemaphore(1)
        m = s[3]
        log = []

        async def use(cm, i):
            async with cm:
                log.append(i)
                await asyncio.sleep(0)

        for rnd in range(3):
            await s.acquire()
            ts = [asyncio.ensure_future(use(m, 1)), asyncio.ensure_future(use(s[2], 0)), asyncio.ensure_future(use(s[3], 2)), asyncio.ensure_future(use(m, 3))]
            await ticks(3)
            s.release()
            await ticks(20)
            check(all(t.done() for t in ts), "waiters left")
            check(log == [0, 1, 2, 3], f"order {log}")
            log.clear()

    run(main)


def cases(tier):
    import itertools

    n = 5 if tier == "quick" else 6
    yield "handles", handles
    for cap in (1, 2):
        for k in (3, 4):
            for prios in itertools.product((None, 0, 1, -2), repeat=k):
                yield f"order:{cap}:{prios}", order(cap, prios)
        for name, c in explore(("A1", "A0", "A", "R", "X1", "X2", "T"), n, player(lambda cap=cap: PrioritySemaphore(cap), cap, True, False)):
            yield f"{cap}:{name}", c
        for name, c in explore(("A1", "W2", "A0", "R", "S", "X2"), n, player(lambda cap=cap: PrioritySemaphore(cap), cap, True, False)):
            yield f"mix{cap}:{name}", c
    for cap in (1, 2, 3):
        for seed in range(30 if tier == "quick" else 600):
            yield f"long:{cap}:{seed}", long(cap, seed, 14 + seed % 10, (-2, 0, 1, 3))
        for seed in range(6 if tier == "quick" else 60):
            yield f"decorated:{cap}:{seed}", decorated(lambda cap=cap: PrioritySemaphore(cap), cap, 14, seed)
