"""asynchronous any/all over every truth value, outcome and completion order of up to 5 awaitables"""
import builtins
import itertools

from a_sync import utils

from drivers.lib import *

SPACE = "0..4 (thorough 5) awaitables x each one's value (True, False, a truthy and a falsy object, an object counting its __bool__ calls) x every completion order and simultaneous completion x coroutine/task/future awaitables; a failing awaitable; 300 awaitables"

VAL = {"T": lambda: True, "F": lambda: False, "t": lambda: "x", "f": lambda: [], "n": lambda: None}


async def one(fn, vals, delays, kind):
    async def co(i):
        if delays[i]:
            await asyncio.sleep(delays[i])
        return VAL[vals[i]]()

    aws = [co(i) for i in range(len(vals))]
    if kind == "task":
        aws = [asyncio.ensure_future(a) for a in aws]
    got = await outcome(getattr(utils, fn)(*aws))
    eq(got, ("ok", getattr(builtins, fn)(VAL[v]() for v in vals)), f"{fn} of {vals} with delays {delays} ({kind})")
    check(got[1] is True or got[1] is False, f"{got[1]!r} is no bool")
    await ticks(2)


def group(fn, n, al):
    def thunk():
        async def main():
            for vals in itertools.product(al, repeat=n):
                for delays in list(itertools.permutations(range(1, n + 1))) + [(0,) * n, (3,) * n, tuple([0] * (n - 1) + [1]) if n else ()]:
                    for kind in ("coro", "task"):
                        await one(fn, vals, delays, kind)

        run(main, max_steps=10_000_000)

    return thunk


def big(fn):
    def thunk():
        async def main():
            for odd in (None, 0, 150, 299):
                async def co(i):
                    await asyncio.sleep((i * 37) % 50)
                    return (i == odd) == (fn == "any")

                got = await getattr(utils, fn)(*(co(i) for i in range(300)))
                eq(got, (odd is not None) == (fn == "any"), f"{fn} of 300 with the odd one at {odd}")

        run(main, max_steps=10_000_000)

    return thunk


def failing(fn):
    def thunk():
        async def main():
            class E(Exception):
                pass

            neutral = fn == "all"
            for t_fail, t_dec in ((1, 2), (2, 1)):
                async def bad():
                    await asyncio.sleep(t_fail)
                    raise E(1)

                async def decisive():
                    await asyncio.sleep(t_dec)
                    return not neutral

                async def other():
                    return neutral

                got = await outcome(getattr(utils, fn)(other(), bad(), decisive()))
                if t_fail < t_dec:
                    eq(got, ("exc", "E", (1,)), "the failure came first")
                else:
                    eq(got, ("ok", not neutral), "the decisive value came first")
                got = await outcome(getattr(utils, fn)(other(), bad()))
                eq(got, ("exc", "E", (1,)), "a failure and nothing decisive")

        run(main)

    return thunk


def counting(fn):
    def thunk():
        async def main():
            class B:
                def __init__(self, v):
                    self.v, self.n = v, 0

                def __bool__(self):
                    self.n += 1
                    return self.v

            for vals in itertools.product((False, True), repeat=3):
                bs = [B(v) for v in vals]

                async def co(b):
                    return b

                got = await getattr(utils, fn)(*(co(b) for b in bs))
                eq(got, getattr(builtins, fn)(vals), f"{fn} of objects whose truth is {vals}")

        run(main)

    return thunk


def cases(tier):
    m = 4 if tier == "quick" else 5
    for fn in ("any", "all"):
        for n in range(m + 1):
            yield f"{fn}.{n}", group(fn, n, "TFtfn" if n <= 2 else "TF" if n > 3 else "TfF")
        yield f"{fn}.big", big(fn)
        yield f"{fn}.failing", failing(fn)
        yield f"{fn}.counting", counting(fn)
