"""semaphore scenarios shared by C06, C07, C26"""
import a_sync
from a_sync.primitives.locks.semaphore import DummySemaphore, Semaphore, ThreadsafeSemaphore
from a_sync.primitives.locks.prio_semaphore import PrioritySemaphore

from drivers.lib import *


def player(make, cap, prio=False, fifo=True):
    """ops: A / A<prio> start an acquirer, a make an acquire coroutine that is never awaited, D decorated call, R release by the oldest holder,
    r release by the newest, X<i> cancel task i, T step"""

    async def play(ops):
        sem = make()
        tasks, prios, admitted, holders, cancelled = [], [], [], [], set()
        never, finish = [], {}
        started, owed, loose = set(), [], [False]

        async def acquirer(i, p):
            started.add(i)
            await (sem[p].acquire() if prio and p is not None else sem.acquire())
            enter(i)

        async def with_it(i, p):
            started.add(i)
            async with sem[p] if prio and p is not None else sem:
                enter(i)
                await finish[i]
                # leaves at once: counted off by the release op that set the future
                leave(i)
                due()

        def enter(i):
            check(len(holders) < cap, f"over-admission: {len(holders) + 1} holders with {cap} permits")
            if fifo:
                ahead = [j for j in live() if j < i and not tasks[j].done() and better(j, i) and j not in admitted]
                check(not ahead, f"acquirer {i} admitted before {ahead} waiting in front of it")
            if prio and not loose[0]:
                w = waiting()
                if i in owed:
                    owed.remove(i)
                else:
                    check(i in fresh or not w or w == [i], f"acquirer {i} (priority {prios[i]}) admitted, the permit was due to {owed or best(w)}")
            holders.append(i)
            admitted.append(i)

        def leave(i):
            holders.remove(i)

        def live():
            return [j for j in range(len(tasks)) if j not in cancelled]

        fresh = set()  # admitted in their first step, or not seen waiting yet

        def waiting():
            return [j for j in live() if j in started and not tasks[j].done() and j not in admitted and j not in owed and j not in fresh]

        def best(js):
            return min(js, key=lambda j: (-1 if prios[j] is None else prios[j], j), default=None)

        def due():
            b = best(waiting())
            if prio and b is not None:
                owed.append(b)

        def better(j, i):
            if not prio:
                return True
            return False  # priority order is checked by C07's own oracle

        async def settle():
            await ticks(6)

        def free():
            return len(holders) < cap

        def release(i):
            if i in finish:
                finish[i].set_result(None)
            else:
                leave(i)
                due()
                sem.release()

        for op in ops:
            k = op[0]
            if k in "AW":
                p = int(op[1:]) if op[1:] else None
                i = len(tasks)
                if k == "W":
                    finish[i] = asyncio.get_running_loop().create_future()
                prios.append(p)
                fresh.add(i)
                tasks.append(asyncio.ensure_future(acquirer(i, p) if k == "A" else with_it(i, p)))
            elif k == "a":
                never.append(sem.acquire())
            elif k in "Rr":
                hs = [h for h in holders if not (h in finish and finish[h].done())]
                if hs:
                    release(hs[0 if k == "R" else -1])
            elif k == "X":
                i = int(op[1:])
                if i < len(tasks) and not tasks[i].done() and i not in admitted:
                    loose[0] = loose[0] or i in owed
                    tasks[i].cancel()
                    cancelled.add(i)
            elif k == "T":
                await asyncio.sleep(0)
                fresh.clear()
            elif k == "S":
                await settle()
                fresh.clear()
                loose[0], owed[:] = False, []
            elif k == "L":
                sem.locked()
                repr(sem)
                len(sem) if not prio else None
        await settle()
        fresh.clear()
        loose[0], owed[:] = False, []
        if free():
            stuck = [j for j in live() if not tasks[j].done() and j not in admitted]
            check(not stuck, f"a permit is free ({len(holders)} of {cap} held) but {stuck} stay blocked")
        n = 0
        while holders:
            n += 1
            check(n < 100, "never drains")
            hs = [h for h in holders if not (h in finish and finish[h].done())]
            if hs:
                release(hs[0])
            await settle()
            if free():
                stuck = [j for j in live() if not tasks[j].done() and j not in admitted]
                check(not stuck, f"a permit is free but {stuck} stay blocked")
        for j in live():
            check(j in admitted, f"{j} never admitted")
            if tasks[j].exception():
                raise tasks[j].exception()
        for j in cancelled:
            check(tasks[j].done(), f"cancelled {j} still pending")
            if j in admitted:
                check(False, f"{j} admitted and cancelled")
        for c in never:
            c.close()
        # the full number of permits can be acquired again, and not one more
        for _ in range(cap):
            t = asyncio.ensure_future(sem.acquire())
            await settle()
            check(t.done() and not t.cancelled() and not t.exception(), "a permit was lost")
        t = asyncio.ensure_future(sem.acquire())
        await settle()
        check(not t.done(), "a permit was invented")
        sem.release()
        await settle()
        check(t.done(), "a released permit did not reach the waiter")
        for _ in range(cap):
            sem.release()

    return play


def decorated(make, cap, tasks, seed):
    """calls of a decorated function, some cancelled, some failing: concurrency never above cap, all permits back"""

    def thunk():
        import random

        rnd = random.Random(seed)

        async def main():
            sem = make()
            cur = peak = 0
            ran = []

            @sem
            async def f(i, *, k):
                nonlocal cur, peak
                cur += 1
                peak = max(peak, cur)
                ran.append(i)
                try:
                    await asyncio.sleep(rnd.choice((0, 0, 1, 2)))
                    if i % 5 == 3:
                        raise ValueError(i)
                    return (i, k)
                finally:
                    cur -= 1

            ts = [asyncio.ensure_future(f(i, k=-i)) for i in range(tasks)]
            dead = set()
            for _ in range(tasks // 2):
                await asyncio.sleep(rnd.choice((0, 0, 1)))
                j = rnd.randrange(tasks)
                if not ts[j].done():
                    ts[j].cancel()
                    dead.add(j)
            for i, t in enumerate(ts):
                o = await outcome(t)
                if o[0] == "cancelled":
                    check(i in dead, "cancelled out of nowhere")
                elif i % 5 == 3:
                    eq(o, ("exc", "ValueError", (i,)), "outcome")
                else:
                    eq(o, ("ok", (i, -i)), "outcome")
            check(peak <= cap, f"{peak} bodies at once with {cap} permits")
            check(len(ran) == len(set(ran)), "a body ran twice")
            for _ in range(cap):
                t = asyncio.ensure_future(sem.acquire())
                await ticks(4)
                check(t.done(), "a permit was lost")

        run(main)

    return thunk
