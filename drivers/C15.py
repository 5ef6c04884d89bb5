"""create_task over kinds of awaitables, outcomes, persistence, and what became of earlier persisted tasks"""
import asyncio
import gc
import itertools
import weakref

import a_sync
from a_sync.asyncio import create_task
from drivers.lib import *

SPACE = "7 kinds of awaitables x 6 outcomes x persisted or not x name; every sequence of up to 3 earlier persisted tasks with outcomes {pending, result, exception, RuntimeError, cancelled, other BaseException}; liveness under garbage collection"


class Boom(Exception):
    pass


class Base(BaseException):
    pass


class Odd(Exception):
    def __init__(self, a, *, b):
        super().__init__(a)

    def __str__(self):
        return "odd"


OUTCOMES = {"value": "v", "none": None, "boom": Boom("x"), "runtime": RuntimeError("y"), "odd": Odd(1, b=2), "cancel": asyncio.CancelledError()}
KINDS = ("coro", "future", "task", "gather", "object", "wrapped", "smart")


def make(kind, out, log):
    async def body():
        log.append(1)
        await asyncio.sleep(0)
        if isinstance(out, BaseException):
            raise out
        return out

    loop = asyncio.get_running_loop()
    if kind == "coro":
        return body()
    if kind == "task":
        return loop.create_task(body())
    if kind == "gather":
        return asyncio.gather(body())
    if kind == "wrapped":
        return a_sync.a_sync("async")(body)()
    if kind == "object":

        class Aw:
            def __await__(self):
                return body().__await__()

        return Aw()
    f = loop.create_future() if kind == "future" else a_sync._smart.create_future(loop=loop)

    async def settle():
        log.append(1)
        await asyncio.sleep(0)
        if isinstance(out, asyncio.CancelledError):
            f.cancel()
        elif isinstance(out, BaseException):
            f.set_exception(out)
        else:
            f.set_result(out)

    KEEP.append(loop.create_task(settle()))
    return f


KEEP = []


def one(kind, oname, persist, name):
    def thunk():
        out = OUTCOMES[oname]
        if isinstance(out, BaseException):
            out = type(out)(*out.args) if not isinstance(out, Odd) else Odd(1, b=2)

        async def main():
            log = []
            asyncio.get_running_loop().set_exception_handler(lambda l, c: None)
            aw = make(kind, out, log)
            n0 = len(log)
            t = create_task(aw, name=name, skip_gc_until_done=persist)
            check(isinstance(t, asyncio.Task), f"create_task returned {t!r}")
            check(not t.done(), "done before it ran")
            eq(len(log), n0, "runs before the loop runs the task")
            if name:
                eq(t.get_name(), name, "name")
            try:
                r = ("ok", await t)
            except asyncio.CancelledError:
                r = ("cancelled", t.cancelled())
            except BaseException as e:
                r = ("exc", e)
            eq(len(log), 1, "runs of the awaitable")
            if oname == "cancel":
                eq(r, ("cancelled", True), "outcome of a cancelled awaitable")
            elif isinstance(out, BaseException):
                check(r[0] == "exc", f"outcome {r!r} instead of {out!r}")
                if oname == "runtime" and kind != "coro":
                    check(isinstance(r[1], RuntimeError), f"outcome {r!r} instead of {out!r}")
                else:
                    check(r[1] is out, f"the task failed with {r[1]!r} instead of {out!r}")
            else:
                want = [out] if kind == "gather" else out
                eq(r, ("ok", want), "result")
            await ticks(3)
            # nothing the persisted task left behind disturbs anyone
            for i in range(3):
                async def other():
                    return i

                eq(await create_task(other()), i, "a later task's result")
                eq(await create_task(other(), skip_gc_until_done=True), i, "a later task's result")
            del KEEP[:]

        run(main)

    return thunk


def cancelled_by_user(persist, when):
    def thunk():
        async def main():
            log = []

            async def body():
                log.append("start")
                try:
                    await asyncio.sleep(100)
                finally:
                    log.append("end")

            t = create_task(body(), skip_gc_until_done=persist)
            await ticks(when)
            t.cancel()
            r = await outcome(t)
            eq(r, ("cancelled",), "outcome of the cancelled task")
            check(t.cancelled(), "not cancelled")
            eq(log, ["start", "end"] if when else [], "what ran")
            for i in range(3):
                await ticks(2)

                async def other():
                    return i

                eq(await create_task(other(), skip_gc_until_done=i % 2 == 0), i, "a later task's result")

        run(main)

    return thunk


FATES = ("pending", "value", "boom", "runtime", "odd", "cancel", "cancel-inner", "base")


def fates(fs):
    """earlier persisted tasks ended in all these ways; then tasks are created by others"""

    def thunk():
        async def main():
            loop = asyncio.get_running_loop()
            loop.set_exception_handler(lambda l, c: None)
            refs, gates = [], []
            expected = []
            for f in fs:
                gate = loop.create_future()
                gates.append(gate)

                async def body(f=f, gate=gate):
                    await gate
                    if f == "boom":
                        raise Boom("x")
                    if f == "runtime":
                        raise RuntimeError("x")
                    if f == "odd":
                        raise Odd(1, b=2)
                    if f == "base":
                        raise Base("x")
                    if f == "cancel-inner":
                        raise asyncio.CancelledError
                    return 1

                t = create_task(body(), skip_gc_until_done=True)
                refs.append(weakref.ref(t))
                if f == "cancel":
                    await ticks(1)
                    t.cancel()
                elif f != "pending":
                    gate.set_result(None)
                del t
            for n in range(4):
                await ticks(n + 1)

                async def other(n=n):
                    return n

                try:
                    eq(await create_task(other()), n, "an unrelated task's result")
                    eq(await create_task(other(), skip_gc_until_done=True), n, "an unrelated persisted task's result")
                except Bad:
                    raise
                except BaseException as e:
                    raise Bad(f"after persisted tasks ended {fs}: an unrelated create_task failed with {e!r}")
            await ticks(3)
            create_task(asyncio.sleep(0))
            await ticks(3)
            gc.collect()
            for f, r, gate in zip(fs, refs, gates):
                if f == "pending":
                    check(r() is not None, f"after {fs}: a persisted pending task was let go")
                    check(not r().done(), f"after {fs}: a pending persisted task ended by itself")
                    gate.set_result(None)
                else:
                    check(r() is None, f"after {fs}: a persisted task which ended ({f}) is still kept")
            await ticks(3)
            for f, r in zip(fs, refs):
                if f == "pending":
                    check(r() is None or r().done() and r().result() == 1, "the pending one did not finish")

        run(main)

    return thunk


def kept_alive(name):
    """nothing but the library refers to the task"""

    def thunk():
        async def main():
            loop = asyncio.get_running_loop()
            log = []
            holder = {}

            class Gate:
                pass

            def start():
                g = loop.create_future()
                gate = Gate()
                gate.fut = g

                async def body():
                    keep = gate
                    try:
                        await keep.fut
                        log.append("done")
                    finally:
                        pass

                t = create_task(body(), name=name, skip_gc_until_done=True)
                return weakref.ref(t), weakref.ref(gate)

            rt, rg = start()
            for _ in range(3):
                await ticks(2)
                gc.collect()
                check(rt() is not None, "the persisted task was garbage-collected while pending")
                create_task(asyncio.sleep(0))
            rg().fut.set_result(None)
            await ticks(4)
            eq(log, ["done"], "the persisted task ran to its end")
            create_task(asyncio.sleep(0))
            await ticks(3)
            gc.collect()
            check(rt() is None, "the persisted task is still kept after it was done")

        run(main)

    return thunk


def cases(tier):
    for kind in KINDS:
        for o in OUTCOMES:
            for persist in (False, True):
                for name in ("", "nm"):
                    yield f"one:{kind}:{o}:{persist}:{name}", one(kind, o, persist, name)
    for p in (False, True):
        for w in (0, 1, 2):
            yield f"cancel:{p}:{w}", cancelled_by_user(p, w)
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for fs in itertools.product(FATES, repeat=n):
            yield "fates:" + ",".join(fs), fates(fs)
    yield "kept", kept_alive("")
    yield "kept:named", kept_alive("nm")
