"""as_completed over every completion order and outcome of up to 4 awaitables, against the specification"""
import itertools
from collections.abc import Mapping

import a_sync.asyncio as A
import a_sync

from drivers.lib import *
from drivers.C13 import Fail, MyMap, KEYS, VALUES, aw, same

SPACE = "0..3 (thorough 4) awaitables x every completion order x outcome of each (distinct value, None, exception object as value, failure) x list / generator / dict / mapping x aiter x return_exceptions x tqdm x coroutine/task; timeouts 0.004 .. 25 against awaitables of 10, 20, .. units"

QUIET = {"disable": True}


async def one(n, order, outs, shape, rexc, aiter, tqdm, kind, timeout=None):
    """(outcomes in order of delivery: (index or None, outcome, time))"""
    started = []
    aws = [aw(kind, i, (order[i] + 1) * 10, outs[i], started) for i in range(n)]
    kw = {}
    if rexc:
        kw["return_exceptions"] = True
    if tqdm:
        kw.update(tqdm=True, **QUIET)
    if timeout is not None:
        kw["timeout"] = timeout
    if shape == "list":
        src = list(aws)
    elif shape == "gen":
        src = (a for a in aws)
    else:
        d = {KEYS[i]: aws[i] for i in range(n)}
        src = d if shape == "dict" else MyMap(d)
    loop = asyncio.get_running_loop()
    t0 = loop.time()
    out = []
    if aiter:
        try:
            async for r in A.as_completed(src, aiter=True, **kw):
                out.append(("ok", r, loop.time() - t0))
        except Exception as e:
            out.append(("exc", e, loop.time() - t0))
    else:
        for a in A.as_completed(src, **kw):
            try:
                r = await a
            except Exception as e:
                out.append(("exc", e, loop.time() - t0))
            else:
                out.append(("ok", r, loop.time() - t0))
    mapping = shape in ("dict", "map")
    exp = []
    for i in sorted(range(n), key=lambda i: order[i]):
        t = (order[i] + 1) * 10
        if timeout is not None and t > timeout:
            exp.append(("exc", None, timeout))
            if aiter:
                break
            continue
        if outs[i] == "x" and not rexc:
            exp.append(("exc", Fail(i), t))
            if aiter:
                break
            continue
        v = Fail(i) if outs[i] == "x" else VALUES[outs[i]](i)
        exp.append(("ok", (KEYS[i], v) if mapping else v, t))

    def match(a, b):
        if a[0] != b[0] or abs(a[2] - b[2]) > 1e-6:
            return False
        if b[1] is None and b[0] == "exc":
            return isinstance(a[1], (asyncio.TimeoutError, TimeoutError))
        if mapping and b[0] == "ok":
            return isinstance(a[1], tuple) and len(a[1]) == 2 and same(a[1][0], b[1][0]) and same(a[1][1], b[1][1])
        return same(a[1], b[1])

    check(len(out) == len(exp) and all(match(a, b) for a, b in zip(out, exp)), f"got {out}, expected {exp}")
    for a in aws:
        if kind == "task":
            a.cancel()
            await asyncio.wait([a])
            a.cancelled() or a.exception()


def group(n, shape, aiter, outsets, timeouts=(None,)):
    def thunk():
        async def main():
            for outs in outsets:
                for order in itertools.permutations(range(n)):
                    for rexc in (False, True):
                        for tqdm in (False, True):
                            if tqdm and shape == "gen":
                                continue  # tqdm asks for the length
                            for kind in ("coro", "task"):
                                for timeout in timeouts:
                                    try:
                                        await one(n, order, outs, shape, rexc, aiter, tqdm, kind, timeout)
                                    except Bad as e:
                                        raise Bad(f"{n} {kind} awaitables with outcomes {outs}, finishing in the order {order}, {shape}, aiter={aiter}, return_exceptions={rexc}, tqdm={tqdm}, timeout={timeout}: {e}")

        run(main, max_steps=10_000_000)

    return thunk


def sync_iteration():
    """the async iterator's sync mode is the business of C16; here: a_sync.as_completed is the same function and large inputs work"""

    async def main():
        async def co(x):
            await asyncio.sleep(x % 7)
            return x

        got = []
        async for r in a_sync.as_completed([co(i) for i in range(200)], aiter=True):
            got.append(r)
        eq(sorted(got), list(range(200)), "200 results")
        eq([g % 7 for g in got], sorted(i % 7 for i in range(200)), "completion order of 200")
        got = {}
        async for k, r in a_sync.as_completed({f"k{i}": co(i) for i in range(200)}, aiter=True):
            check(k not in got, "a key twice")
            got[k] = r
        eq(got, {f"k{i}": i for i in range(200)}, "200 keys")

    run(main)


def cases(tier):
    yield "large", sync_iteration
    m = 3 if tier == "quick" else 4
    for n in range(m + 1):
        al = "vnex" if n < 3 or (tier != "quick" and n == 3) else "vnx" if n == 3 else "vx"
        for shape in ("list", "gen", "dict", "map"):
            for aiter in (False, True):
                yield f"{n}.{shape}.{aiter}", group(n, shape, aiter, ["".join(o) for o in itertools.product(al, repeat=n)])
    for n in (1, 2, 3):
        for shape in ("list", "dict"):
            for aiter in (False, True):
                outs = ["v" * n] if n == 3 else ["".join(o) for o in itertools.product("vx", repeat=n)]
                yield f"timeout.{n}.{shape}.{aiter}", group(n, shape, aiter, outs, (0.004, 0.9, 5, 9.999, 10.5, 15, 25.25, 1000))
