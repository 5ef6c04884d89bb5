"""gather over every completion order and outcome of up to 4 awaitables, against the specification"""
import itertools
from collections import OrderedDict, UserDict
from collections.abc import Mapping

import a_sync.asyncio as A
import a_sync

from drivers.lib import *

SPACE = "0..3 (thorough 4) awaitables x every completion order x each one's outcome (distinct value, equal value, None, failure) x list / dict / mapping with unorderable and falsy keys x return_exceptions x exclusion predicate (none, falsy results, a kind of value, everything, nothing) x tqdm on/off x coroutine/task/future awaitables"

QUIET = {"disable": True}


class Fail(Exception):
    pass


class MyMap(Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


KEYS = (None, 0, "", (1, 2))
VALUES = {"v": lambda i: ["value", i], "s": lambda i: 7, "n": lambda i: None, "e": lambda i: ValueError(f"a result, number {i}")}


def aw(kind, i, delay, what, started):
    async def co():
        started.append(i)
        await asyncio.sleep(delay)
        if what == "x":
            raise Fail(i)
        return VALUES[what](i)

    return co() if kind == "coro" else asyncio.ensure_future(co())


EXCL = {
    None: None,
    "falsy": lambda r: not r,
    "exc": lambda r: isinstance(r, Exception),
    "seven": lambda r: r == 7,
    "all": lambda r: True,
    "nothing": lambda r: [],
}


def same(a, b):
    if isinstance(b, Exception):
        return type(a) is type(b) and a.args == b.args
    return type(a) is type(b) and a == b


async def one(n, order, outs, shape, rexc, excl, tqdm, kind):
    started = []
    aws = [aw(kind, i, (order[i] + 1) * 10, outs[i], started) for i in range(n)]
    seen = []
    pred = EXCL[excl]

    def predicate(r):
        seen.append(r)
        return pred(r)

    kw = {}
    if rexc:
        kw["return_exceptions"] = True
    if pred:
        kw["exclude_if"] = predicate
    if tqdm:
        kw.update(tqdm=True, **QUIET)
    if shape == "list":
        arg = A.gather(*aws, **kw)
    else:
        d = {KEYS[i]: aws[i] for i in range(n)}
        arg = A.gather(d if shape == "dict" else MyMap(d), **kw)
    t0 = asyncio.get_running_loop().time()
    got = await outcome(arg)
    t1 = asyncio.get_running_loop().time() - t0
    failed = [i for i in range(n) if outs[i] == "x"]
    if failed and not rexc:
        first = min(failed, key=lambda i: order[i])
        eq(got, ("exc", "Fail", (first,)), "what gather gave, the first failure being that")
        eq(t1, (order[first] + 1) * 10, "the time it took to fail")
    else:
        check(got[0] == "ok", f"gather ended with {got!r}")
        res = {i: Fail(i) if outs[i] == "x" else VALUES[outs[i]](i) for i in range(n)}
        keep = [i for i in range(n) if not (pred and pred(res[i]))]
        r = got[1]
        if shape == "list":
            check(isinstance(r, list), f"the result is {r!r}")
            check(len(r) == len(keep) and all(same(x, res[i]) for x, i in zip(r, keep)), f"results {r!r}, expected {[res[i] for i in keep]!r}")
        else:
            check(isinstance(r, Mapping), f"the result is {r!r}")
            check(list(r) == [KEYS[i] for i in keep], f"keys {list(r)!r}, expected {[KEYS[i] for i in keep]!r}")
            check(all(same(r[KEYS[i]], res[i]) for i in keep), f"result {r!r}, expected {[res[i] for i in keep]!r} under {[KEYS[i] for i in keep]!r}")
        eq(len(started), n, "number of awaitables started")
        if pred:
            eq(len(seen), n, "number of times the predicate was asked")
        if n:
            eq(t1, n * 10, "the time it took (they run at the same time)")
    if kind == "task":
        for a in aws:
            a.cancel()
            a.done() and not a.cancelled() and a.exception()


def group(n, shape, tqdm, outsets):
    def thunk():
        async def main():
            for outs in outsets:
                for order in itertools.permutations(range(n)):
                    for rexc in (False, True):
                        if not rexc and outs.count("x") > 1 and False:
                            continue
                        for excl in EXCL:
                            for kind in ("coro", "task"):
                                if kind == "task" and excl not in (None, "falsy"):
                                    continue
                                try:
                                    await one(n, order, outs, shape, rexc, excl, tqdm, kind)
                                except Bad as e:
                                    raise Bad(f"{n} {kind} awaitables with outcomes {outs}, finishing in the order {order}, {shape}, return_exceptions={rexc}, exclude_if={excl}, tqdm={tqdm}: {e}")

        run(main, max_steps=10_000_000)

    return thunk


def special():
    async def main():
        async def co(x):
            return x

        eq(await A.gather(), [], "gather of nothing")
        eq(await A.gather({}), {}, "gather of an empty mapping")
        eq(await A.gather(OrderedDict(a=co(1))), {"a": 1}, "gather of an OrderedDict")
        eq(await A.gather(UserDict(a=co(1))), {"a": 1}, "gather of a UserDict")
        eq(await a_sync.gather(co(1), co(2)), [1, 2], "a_sync.gather")
        c = co(3)
        # the same awaitable under two keys, and twice in a list
        f = asyncio.ensure_future(c)
        eq(await A.gather(f, f), [3, 3], "the same task twice")
        f = asyncio.ensure_future(co(4))
        eq(await A.gather({"a": f, "b": f}), {"a": 4, "b": 4}, "the same task under two keys")
        big = await A.gather(*(co(i) for i in range(300)))
        eq(big, list(range(300)), "300 coroutines")
        big = await A.gather({i: co(i * 2) for i in range(300)})
        eq(big, {i: i * 2 for i in range(300)}, "300 keys")
        eq(list(big), list(range(300)), "order of 300 keys")

    run(main)


def cases(tier):
    yield "special", special
    m = 3 if tier == "quick" else 4
    al = "vnx" if tier == "quick" else "vsnex"
    for n in range(m + 1):
        for shape in ("list", "dict", "map"):
            for tqdm in (False, True):
                for first in al if n else ("",):
                    sets = [first + "".join(o) for o in itertools.product(al if n < 4 else "vnx", repeat=max(n - 1, 0))]
                    if n == 0:
                        sets = [""]
                    if tier == "quick" and n <= 2:
                        sets = [first + "".join(o) for o in itertools.product("vsnex", repeat=max(n - 1, 0))] if n else [""]
                    yield f"{n}.{shape}.{tqdm}.{first}", group(n, shape, tqdm, sets)
