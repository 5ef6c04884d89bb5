"""synchronous calls inside and outside a running loop"""
from drivers.dual import *

SPACE = "ways to ask for synchronous execution x {inside a running loop, outside, in a thread without a loop}; RuntimeErrors of the function itself; loop usable afterwards"


def ways():
    async def fn(log, exc):
        log.append(1)
        await asyncio.sleep(0)
        if exc:
            raise exc
        return "r"

    yield "flag", lambda: (lambda log, exc: a_sync.a_sync(default="async")(fn)(log, exc, sync=True))
    yield "negflag", lambda: (lambda log, exc: a_sync.a_sync(fn)(log, exc, asynchronous=False))
    yield "default", lambda: a_sync.a_sync(default="sync")(fn)

    class K(a_sync.ASyncGenericBase):
        def __init__(self):
            a_sync.ASyncGenericBase.__init__(self)
            self.sync = True

        async def m(self, log, exc):
            return await fn(log, exc)

        @a_sync.aka.property
        async def p(self):
            return await fn(self._log, self._exc)

        @a_sync.aka.cached_property
        async def cp(self):
            return await fn(self._log, self._exc)

    def viam(name):
        def go(log, exc):
            k = K()
            k._log, k._exc = log, exc
            return getattr(k, name)

        return go

    def inst(log, exc):
        k = K()
        return k.m(log, exc)

    yield "instance", lambda: inst
    yield "property", lambda: viam("p")
    yield "cached", lambda: viam("cp")


def inside(way):
    def thunk():
        call = dict(ways())[way]()
        log = []

        async def main():
            try:
                r = call(log, None)
            except a_sync.exceptions.SyncModeInAsyncContextError:
                pass
            except BaseException as e:
                raise Bad(f"raised {e!r} instead of SyncModeInAsyncContextError")
            else:
                raise Bad(f"returned {r!r} inside a running loop")
            check(asyncio.get_running_loop() is loop, "the running loop changed")
            await asyncio.sleep(0)
            check(await asyncio.ensure_future(asyncio.sleep(0, "v")) == "v", "loop unusable afterwards")

        loop = fresh_loop()
        try:
            loop.run_until_complete(asyncio.wait_for(main(), 20))
        finally:
            asyncio.set_event_loop(None)
            loop.close()
        eq(log, [], "the body ran inside the running loop")

    return thunk


EXCS = [None, RuntimeError("mine"), RuntimeError(""), RuntimeError("Event loop is closed"), RuntimeError("This event loop is already running?"), ValueError("v"), RuntimeError("There is no current event loop in thread 'x'.")]


def outside(way, i, where):
    def thunk():
        call = dict(ways())[way]()
        log = []
        box = []

        def body():
            if where == "loop":
                fresh_loop()
            try:
                box.append(("ok", call(log, EXCS[i])))
            except Exception as e:
                box.append(("exc", e))

        if where == "main-noloop" or where == "loop":
            asyncio.set_event_loop(None) if where == "main-noloop" else None
            body()
        else:
            t = threading.Thread(target=body, daemon=True)
            t.start()
            t.join(20)
            check(not t.is_alive(), "the call does not return")
        asyncio.set_event_loop(None)
        eq(log, [1], "runs of the body")
        if EXCS[i] is None:
            eq(box, [("ok", "r")], "outcome")
        else:
            check(box[0][0] == "exc" and box[0][1] is EXCS[i], f"expected {EXCS[i]!r}, got {box!r}")

    return thunk


def cases(tier):
    for w, _ in ways():
        yield f"inside:{w}", inside(w)
        for i in range(len(EXCS)):
            for where in ("loop", "thread", "main-noloop"):
                yield f"outside:{w}:{i}:{where}", outside(w, i, where)
