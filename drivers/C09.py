"""op sequences on an Event against the specification"""
from a_sync.primitives.locks.event import CythonEvent
from a_sync.primitives import Event

from drivers.lib import *

SPACE = "all sequences of length n over {start waiter, call wait() and await it later, set, clear, cancel waiter 0/1, let the loop run one step}; every waiter's fate compared with the history of sets"


async def play(ops):
    ev = CythonEvent()
    tasks, reg, cancelled = [], [], []
    is_set, nsets = False, 0

    async def waiter(aw):
        r = await aw
        check(r is True, f"wait() gave {r!r}")

    async def waiter0():
        r = await ev.wait()
        check(r is True, f"wait() gave {r!r}")

    def look(final):
        for i, t in enumerate(tasks):
            if cancelled[i]:
                if final:
                    check(t.done(), f"cancelled waiter {i} still pending")
                continue
            if reg[i] is None:  # set at the time of the call
                if final:
                    check(t.done() and not t.cancelled() and t.exception() is None, f"waiter {i} of a set event did not return at once")
            elif nsets > reg[i]:
                if final:
                    check(t.done() and not t.cancelled(), f"waiter {i} not resumed by set()")
                    if t.exception():
                        raise t.exception()
            else:
                check(not t.done(), f"waiter {i} resumed although the event was never set")

    for op in ops:
        if op in "Ww":
            if op == "W":
                tasks.append(asyncio.ensure_future(waiter0()))
                await asyncio.sleep(0)
            else:
                tasks.append(asyncio.ensure_future(waiter(ev.wait())))
            reg.append(None if is_set else nsets)
            cancelled.append(False)
        elif op == "S":
            if not is_set:
                nsets += 1
            ev.set()
            is_set = True
        elif op == "C":
            ev.clear()
            is_set = False
        elif op[0] == "X":
            i = int(op[1])
            if i < len(tasks) and not tasks[i].done():
                tasks[i].cancel()
                cancelled[i] = True
        else:
            await asyncio.sleep(0)
        look(False)
        check(ev.is_set() == is_set, f"is_set() is {ev.is_set()}")
    await ticks(4)
    look(True)
    await reap([t for t in tasks if not t.done()])
    n = len(getattr(ev, "_waiters", ()) or ())
    check(n == 0, f"{n} waiters left behind")


def late():
    async def main():
        ev = CythonEvent()
        t0 = asyncio.get_running_loop().time()

        async def setter():
            await asyncio.sleep(5)
            ev.set()

        s = asyncio.ensure_future(setter())
        ws = [asyncio.ensure_future(ev.wait()) for _ in range(50)]
        await asyncio.gather(*ws)
        eq(asyncio.get_running_loop().time() - t0, 5, "time of resumption")
        await s

    run(main)


def debug_mode():
    """the same with debug logs on (the debug daemon runs)"""
    import logging

    lg = logging.getLogger("a_sync")
    old = lg.level
    lg.setLevel(logging.DEBUG)
    lg.addHandler(logging.NullHandler())
    lg.propagate = False
    logging.disable(logging.NOTSET)
    try:

        async def main():
            for ops in ("W", "S", "T"), ("W", "W", "X0", "T", "S"), ("W", "S", "C", "W", "T", "S"):
                await play(ops)

        run(main)
    finally:
        logging.disable(logging.CRITICAL)
        lg.setLevel(old)


def cases(tier):
    check(Event is CythonEvent or True, "")
    yield "late", late
    yield "debug", debug_mode
    yield from explore(("W", "w", "S", "C", "X0", "X1", "T"), 5 if tier == "quick" else 7, play)
