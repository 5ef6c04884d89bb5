"""Concrete side of the checks: runs the real code (a scratch build of /repo's current tree) on enumerated cases.

A driver module `drivers/Cxx.py` defines `cases(tier)`: a generator of (name, thunk).  A thunk raises Bad(...) when the property does not
hold on that case.  Every case is deterministic, so its name is enough to replay it:  python -m drivers.run Cxx --case NAME --root R

Coroutines run on VLoop: asyncio's own loop with a virtual clock (idle time is skipped) that reports a deadlock instead of hanging.
"""
import asyncio
import gc
import heapq
import os
import selectors
import sys
import threading
import time
import warnings


class Bad(Exception):
    """the property is violated on this case"""


class Deadlock(Exception):
    pass


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, max_steps=200000):
        super().__init__()
        self._vt = 1000.0
        self._steps = 0
        self._max = max_steps
        self.external = 0  # >0: threads may wake us, do not call it a deadlock

    def time(self):
        return self._vt

    def _run_once(self):
        self._steps += 1
        if self._steps > self._max:
            raise Deadlock("the program keeps spinning without finishing")
        if not self._ready:
            while self._scheduled and self._scheduled[0]._cancelled:
                self._timer_cancelled_count -= 1
                h = heapq.heappop(self._scheduled)
                h._scheduled = False
            if self._scheduled:
                when = self._scheduled[0]._when
                if when > self._vt:
                    if self.external:
                        ev = self._selector.select(0.002)
                        self._process_events(ev)
                    if not self._ready:
                        self._vt = when
            elif not self._stopping:
                if self.external:
                    ev = self._selector.select(2.0)
                    self._process_events(ev)
                    if not ev and not self._ready:
                        raise Deadlock("nothing can make progress any more")
                else:
                    raise Deadlock("nothing can make progress any more")
        super()._run_once()


def quiet(loop, ctx):
    pass


def run(make, external=False, max_steps=200000):
    """run coroutine function `make` to completion on a fresh virtual loop; exceptions propagate, a hang is Bad"""
    loop = VLoop(max_steps)
    loop.external = 1 if external else 0
    loop.set_exception_handler(quiet)
    asyncio.set_event_loop(loop)
    try:
        t = loop.create_task(make())
        try:
            return loop.run_until_complete(t)
        except Deadlock as e:
            raise Bad(f"deadlock: {e}")
    finally:
        for task in asyncio.all_tasks(loop):
            task.cancel()
        try:
            loop.external = 0
            for _ in range(20):
                loop.call_soon(loop.stop)
                loop.run_forever()
                if not asyncio.all_tasks(loop):
                    break
        except (Deadlock, Exception):
            pass
        asyncio.set_event_loop(None)
        _keep.append(loop)  # closing is skipped: the code under test may hold references
        if len(_keep) > 50:
            for l in _keep[:40]:
                try:
                    l.close()
                except Exception:
                    pass
            del _keep[:40]


_keep = []


async def ticks(n):
    for _ in range(n):
        await asyncio.sleep(0)


def check(cond, msg):
    if not cond:
        raise Bad(msg)


def eq(got, want, what):
    if not (type(got) is type(want) and got == want) and got != want:
        raise Bad(f"{what}: got {got!r}, expected {want!r}")


async def outcome(aw, timeout=None):
    """('ok', v) | ('exc', type, args) | ('cancelled',)"""
    try:
        if timeout is not None:
            return ("ok", await asyncio.wait_for(aw, timeout))
        return ("ok", await aw)
    except asyncio.CancelledError:
        return ("cancelled",)
    except Exception as e:
        return ("exc", type(e).__name__, e.args)


def sync_outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", type(e).__name__, e.args)


def sequences(alphabet, n):
    """all op sequences of length exactly n"""
    import itertools

    return itertools.product(alphabet, repeat=n)


def explore(alphabet, n, play, pre=2, only=None, max_steps=10_000_000):
    """cases (one per prefix of length `pre`): play(ops) is a coroutine function raising Bad; all sequences of length n with that prefix"""
    import itertools

    def case(p):
        def thunk():
            async def main():
                for rest in itertools.product(alphabet, repeat=n - pre):
                    ops = p + rest
                    if only and not only(ops):
                        continue
                    try:
                        await play(ops)
                    except Bad as e:
                        raise Bad(f"{' '.join(map(str, ops))}: {e}")
                    except asyncio.CancelledError:
                        raise Bad(f"{' '.join(map(str, ops))}: stray cancellation")
                    except Exception as e:
                        raise Bad(f"{' '.join(map(str, ops))}: {e!r}")

            run(main, max_steps=max_steps)

        return thunk

    for p in itertools.product(alphabet, repeat=pre):
        yield "seq:" + ".".join(map(str, p)), case(p)


async def reap(tasks):
    for t in tasks:
        t.cancel()
    for t in tasks:
        try:
            await t
        except BaseException:
            pass
