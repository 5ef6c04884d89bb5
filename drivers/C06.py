"""op sequences on Semaphore against a model; decorated functions under random cancellation"""
from drivers.semlib import *

SPACE = "sequences of 4 operations after one acquirer more than there are permits; all sequences of length n over {acquire, async-with acquirer, acquire coroutine never awaited, release by oldest/newest holder, cancel acquirer 0..2, step} for 1 and 2 permits; random decorated workloads"


def misc():
    async def main():
        for bad in (-1,):
            try:
                Semaphore(bad)
            except ValueError:
                pass
            else:
                raise Bad("negative value accepted")
        s = Semaphore(0)
        t = asyncio.ensure_future(s.acquire())
        await ticks(3)
        check(not t.done() and s.locked(), "a semaphore of 0 admitted somebody")
        s.release()
        await ticks(3)
        check(t.done(), "released permit lost")
        d = DummySemaphore()
        async with d:
            async with d:
                await d.acquire()
        d.release()
        try:
            s.decorate(lambda: 1)
        except TypeError:
            pass
        else:
            raise Bad("decorated a plain function")

    run(main)


def cases(tier):
    n = 5 if tier == "quick" else 7
    yield "misc", misc
    for cap in (1, 2):
        al = ("A", "R", "X0", "X1", "X2", "T") if cap == 1 else ("A", "R", "X1", "X2", "X3", "T")
        for name, c in explore(al, n + 2 - cap, player(lambda cap=cap: Semaphore(cap), cap)):
            yield f"{cap}:{name}", c
        for name, c in explore(("A", "W", "a", "R", "r", "X1", "L", "T"), n - 1 - (tier != "quick"), player(lambda cap=cap: Semaphore(cap), cap)):
            yield f"mix{cap}:{name}", c
    for cap in (1, 2, 3):
        # from a state with a settled waiter, several things happening before it resumes
        full = player(lambda cap=cap: Semaphore(cap), cap)
        start = ("A",) * (cap + 1) + ("S",)
        for name, c in explore(("A", "R", f"X{cap}", f"X{cap + 1}", "T"), 4 if tier == "quick" else 6, lambda ops, start=start, full=full: full(start + tuple(ops))):
            yield f"full{cap}:{name}", c
    for cap in (1, 2, 3):
        for seed in range(6 if tier == "quick" else 60):
            yield f"decorated:{cap}:{seed}", decorated(lambda cap=cap: Semaphore(cap), cap, 14, seed)
