"""Concrete calls of dual-mode functions and methods: shared by C01-C04."""
import asyncio
import inspect

import a_sync
from drivers.lib import *

DEFAULTS = (None, "sync", "async")
FLAGVALS = (True, False, 1, 0, None, "", "yes")


class Boom(Exception):
    pass


class Base(BaseException):
    pass


def make_fn(kind, log, outcome):
    if kind == "coro":

        async def fn(*args, **kwargs):
            log.append((args, kwargs))
            await asyncio.sleep(0)
            return outcome()

    else:

        def fn(*args, **kwargs):
            log.append((args, kwargs))
            return outcome()

    return fn


def deco(fn, default, style):
    if style == 0:
        return a_sync.a_sync(default=default)(fn) if default else a_sync.a_sync()(fn)
    if style == 1:
        return a_sync.a_sync(fn, default=default) if default else a_sync.a_sync(fn)
    return a_sync.a_sync(default)(fn)


def fresh_loop():
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    return loop


def want_sync(flags, dflt):
    for k, v in flags.items():
        return bool(v) if k == "sync" else not v
    return dflt


def flagsets():
    yield {}
    for v in FLAGVALS:
        yield {"sync": v}
        yield {"asynchronous": v}


def call_and_settle(call, log, expect_sync, what):
    """run call() outside a loop, classify; returns ('ok', value) / ('exc', e)"""
    loop = fresh_loop()
    try:
        try:
            r = call()
        except Exception as e:
            if not expect_sync:
                raise Bad(f"{what}: raised {e!r} instead of returning an awaitable")
            return ("exc", e)
        if expect_sync:
            check(not inspect.isawaitable(r), f"{what}: returned the awaitable {r!r} in synchronous mode")
            check(len(log) == 1, f"{what}: the body ran {len(log)} times in a synchronous call")
            return ("ok", r)
        check(inspect.isawaitable(r), f"{what}: returned {r!r} instead of an awaitable")
        check(len(log) == 0, f"{what}: the body ran before the awaitable was awaited")

        async def main():
            return await r

        try:
            return ("ok", loop.run_until_complete(main()))
        except Exception as e:
            return ("exc", e)
    finally:
        asyncio.set_event_loop(None)
        loop.close()
