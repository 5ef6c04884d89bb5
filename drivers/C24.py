"""executors: every class and size, outcomes, many calls at once, pruning, and forced interleavings of the pruning pool's threads"""
import asyncio
import concurrent.futures as cf
import itertools
import queue
import threading
import time

import a_sync
from a_sync.executor import AsyncProcessPoolExecutor, AsyncThreadPoolExecutor, PruningThreadPoolExecutor
from drivers.lib import *

SPACE = "thread, pruning and process pools x 0-4 workers x run/submit x results, exceptions, arguments; bursts; calls that wait for each other; pruning by tiny timeouts; forced schedules at the queue operations"


class Boom(Exception):
    pass


CLASSES = {"thread": AsyncThreadPoolExecutor, "pruning": PruningThreadPoolExecutor, "process": AsyncProcessPoolExecutor}


def go(main, timeout=60):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        try:
            return loop.run_until_complete(asyncio.wait_for(main(), timeout))
        except asyncio.TimeoutError:
            raise Bad("a submitted call was never executed (no answer)")
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def one(cls, n, how):
    def thunk():
        ex = CLASSES[cls](n)

        async def main():
            for i in range(3):
                log = []
                if cls == "process" and n:
                    f, args, kw, want = divmod, (17 + i, 5), {}, ("ok", divmod(17 + i, 5))
                    g, gargs = int, ("x",)
                else:

                    def f(*a, **k):
                        log.append((a, k))
                        return (a, k)

                    def g(*a):
                        log.append(a)
                        raise Boom(*a)

                    args, kw = (1, i), {"z": 3, "fn2": i}
                    want, gargs = ("ok", (args, kw)), (9,)
                r = getattr(ex, how)(f, *args, **kw)
                check(asyncio.isfuture(r) or asyncio.iscoroutine(r), f"{how} returned {r!r}")
                eq(await outcome(r), want, "result")
                if not (cls == "process" and n):
                    eq(log, [(args, kw)], "runs of the callable")
                o = await outcome(getattr(ex, how)(g, *gargs))
                eq(o[:2], ("exc", "ValueError" if cls == "process" and n else "Boom"), "exception")
                if not (cls == "process" and n):
                    eq(o[2], (9,), "exception arguments")
                    eq(log, [(args, kw), (9,)], "runs of the callable")

        go(main)
        ex.shutdown(wait=False)

    return thunk


def same_exc(cls, n, how):
    def thunk():
        ex = CLASSES[cls](n)
        errs = [Boom("x"), KeyError("k"), asyncio.CancelledError("c"), Exception()]

        async def main():
            for e in errs:

                def f():
                    raise e

                try:
                    r = await getattr(ex, how)(f)
                except BaseException as g:
                    if isinstance(e, asyncio.CancelledError):
                        check(isinstance(g, asyncio.CancelledError), f"{g!r} instead of a cancellation")
                    else:
                        check(g is e, f"{g!r} instead of the callable's own exception {e!r}")
                else:
                    raise Bad(f"returned {r!r} instead of raising {e!r}")

        go(main)

    return thunk


def burst(cls, n, k):
    def thunk():
        ex = CLASSES[cls](n)

        async def main():
            lock, log = threading.Lock(), []

            def f(i):
                with lock:
                    log.append(i)
                if i % 5 == 4:
                    raise Boom(i)
                return i

            got = await asyncio.gather(*[(ex.run if i % 2 else ex.submit)(f, i) for i in range(k)] if n else [ex.run(f, i) for i in range(k)], return_exceptions=True)
            for i, g in enumerate(got):
                if i % 5 == 4:
                    check(isinstance(g, Boom) and g.args == (i,), f"call {i} gave {g!r}")
                else:
                    eq(g, i, f"call {i}")
            eq(sorted(log), list(range(k)), "each callable ran once")

        go(main)

    return thunk


def together(cls, n):
    """n calls that wait for each other finish with n workers"""

    def thunk():
        for rep in range(3):
            ex = CLASSES[cls](n)

            async def main():
                for rnd in range(4):
                    b = threading.Barrier(n)
                    got = await asyncio.gather(*[ex.run(b.wait, 10) for _ in range(n)], return_exceptions=True)
                    eq(sorted(got, key=repr), list(range(n)), "calls waiting for each other")
                    await ex.run(int)
                    if rnd == 1:
                        await asyncio.sleep(0.01)

            go(main)

    return thunk


def pruned(n, timeout):
    def thunk():
        ex = PruningThreadPoolExecutor(n, timeout=timeout)

        async def main():
            for rnd in range(5):
                b = threading.Barrier(n)
                got = await asyncio.gather(*[ex.run(b.wait, 10) for _ in range(n)], return_exceptions=True)
                eq(sorted(got, key=repr), list(range(n)), "calls waiting for each other, after threads were pruned")
                await asyncio.sleep(timeout * (rnd % 3) * 1.5)
                eq(await ex.run(len, "abc"), 3, "result")

        go(main)
        check(len(ex) >= 1, "no thread is left")

    return thunk


class StepQueue:
    """the pool's queue with stops: a thread reaching a stop waits until the test lets it go on"""

    def __init__(self):
        self.q = queue.SimpleQueue()
        self.stops = {}  # (point, nth thread) -> Event
        self.reached = {}
        self.order = []
        self.expired = {}
        self.mutex = threading.Lock()

    def nth(self):
        t = threading.current_thread()
        with self.mutex:
            if t not in self.order:
                self.order.append(t)
            return self.order.index(t)

    def stop(self, point):
        key = (point, self.nth())
        ev = self.stops.get(key)
        if ev is not None:
            self.reached.setdefault(key, threading.Event()).set()
            ev.wait(20)

    def hold(self, point, n):
        self.stops[(point, n)] = threading.Event()
        return self.reached.setdefault((point, n), threading.Event())

    def free(self, point, n):
        self.stops.pop((point, n)).set()

    def put(self, x):
        self.q.put(x)

    def empty(self):
        return self.q.empty()

    def qsize(self):
        return self.q.qsize()

    def get_nowait(self):
        self.stop("before")
        try:
            return self.q.get_nowait()
        except queue.Empty:
            self.stop("empty")
            raise

    def get(self, block=True, timeout=None):
        if not block:
            return self.get_nowait()
        n = self.nth()
        self.stop("blocking")
        while True:
            try:
                return self.q.get(timeout=0.02)
            except queue.Empty:
                if self.expired.pop(n, None):
                    self.stop("expired")
                    raise


def pool(n):
    ex = PruningThreadPoolExecutor(n, timeout=1000)
    ex._work_queue = q = StepQueue()
    return ex, q, lambda f, *a: cf.ThreadPoolExecutor.submit(ex, f, *a)


def finish(f, what, t=8):
    try:
        return f.result(t)
    except cf.TimeoutError:
        raise Bad(f"a submitted call was left unexecuted: {what}")


def late_token():
    """a thread finds the queue empty; before it is counted as idle a call arrives"""
    ex, q, sub = pool(4)
    r = q.hold("empty", 0)
    finish(sub(int), "the first call")
    if not r.wait(1):
        # this worker never looks without blocking
        return
    q.hold("before", 1)
    ev = threading.Event()
    x = sub(ev.wait, 6)
    time.sleep(0.1)
    q.free("empty", 0)
    time.sleep(0.2)
    q.free("before", 1)
    time.sleep(0.2)
    y = sub(ev.wait, 6)
    time.sleep(0.1)
    z = sub(ev.set)
    check(finish(x, "x") and finish(y, "y"), "a call submitted to a pool with unused workers was left behind busy threads")
    finish(z, "z")


def expired_meanwhile(again):
    """an idle thread's wait expires; before it leaves, a call arrives that counts on it"""

    def thunk():
        ex, q, sub = pool(3)
        ev = threading.Event()
        a, b = threading.Event(), threading.Event()
        f1, f2 = sub(a.wait, 10), sub(b.wait, 10)
        time.sleep(0.1)
        b.set()
        finish(f2, "second call")
        time.sleep(0.1)
        r = q.hold("expired", 1)
        q.expired[1] = True
        if not r.wait(2):
            a.set()
            return
        x = sub(ev.set)
        time.sleep(0.05)
        q.free("expired", 1)
        check(ev.wait(5), "a call which arrived while an idle thread was leaving was left behind a busy thread")
        finish(x, "x")
        if again:
            q.expired[1] = True
            time.sleep(0.2)
            evs = threading.Event()
            y = sub(evs.wait, 5)
            z = sub(evs.set)
            check(finish(y, "y"), "calls after pruning")
        a.set()
        finish(f1, "f1")

    return thunk


def all_expire(n):
    """all idle threads' waits expire together: one stays"""

    def thunk():
        ex, q, sub = pool(n)
        for rnd in range(3):
            bar = threading.Barrier(n)
            fs = [sub(bar.wait, 10) for _ in range(n)]
            eq(sorted(finish(f, "burst") for f in fs), list(range(n)), "calls waiting for each other")
            time.sleep(0.1)
            for i in range(len(q.order)):
                q.expired[i] = True
            time.sleep(0.15)
            q.expired.clear()
            check(len(ex) >= 1, "every thread was pruned")
            check(any(t.is_alive() for t in ex._threads), "no thread is alive")
            eq(finish(sub(len, "ab"), "after pruning"), 2, "result")

    return thunk


def busy_not_idle():
    """a busy thread is not counted as idle"""
    ex, q, sub = pool(3)
    finish(sub(int), "a")
    for k in range(3):
        ev = threading.Event()
        f = sub(ev.wait, 6)
        g = sub(ev.set)
        check(finish(f, "f"), "a call was left waiting behind a busy thread")
        finish(g, "g")


def cases(tier):
    for cls in CLASSES:
        for n in (0, 1, 2) if cls == "process" else (0, 1, 2, 4):
            for how in ("run", "submit"):
                yield f"one:{cls}:{n}:{how}", one(cls, n, how)
                if cls != "process" or not n:
                    yield f"exc:{cls}:{n}:{how}", same_exc(cls, n, how)
            if cls != "process":
                yield f"burst:{cls}:{n}", burst(cls, n, 40)
                if n > 1:
                    yield f"together:{cls}:{n}", together(cls, n)
    yield "busy", busy_not_idle
    yield "late-token", late_token
    yield "expired:0", expired_meanwhile(0)
    yield "expired:1", expired_meanwhile(1)
    for n in (1, 2, 3):
        yield f"all-expire:{n}", all_expire(n)
    for n in (1, 2, 3):
        for t in (0.005, 0.02):
            yield f"pruned:{n}:{t}", pruned(n, t)
