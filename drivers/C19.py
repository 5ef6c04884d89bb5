"""aggregates over a task mapping against the built-ins over its results"""
import asyncio
import builtins
import itertools
import random

from a_sync import TaskMapping

from drivers.lib import *

SPACE = "all lists of up to 4 results from 7 values (equal ones, None, incomparable ones, results whose truth or order fails) x any/all/sum/min/max x pop or not x sources of 6 kinds (several, empty ones) x completion orders x results there before or not; random ones of up to 12; sync calls; aggregates one after the other"


class Boom(Exception):
    pass


class Num:
    """equal ones are told apart by their tag"""

    def __init__(self, n, tag):
        self.n, self.tag = n, tag

    def __lt__(self, o):
        return self.n < o.n

    def __gt__(self, o):
        return self.n > o.n

    def __add__(self, o):
        return Num(self.n + getattr(o, "n", 0), (self.tag, getattr(o, "tag", o)))

    def __radd__(self, o):
        return Num(self.n, (o, self.tag))

    def __bool__(self):
        return self.n != 0

    def __eq__(self, o):
        return isinstance(o, Num) and (self.n, self.tag) == (o.n, o.tag)

    def __repr__(self):
        return f"Num({self.n}, {self.tag})"


class OneWay:
    """greater is defined, less is not (and the other way round)"""

    def __init__(self, n, op):
        self.n = n
        setattr(type(self), "x", 0)
        self.op = op

    def __lt__(self, o):
        return self.n < o.n if self.op == "lt" else NotImplemented

    def __gt__(self, o):
        return self.n > o.n if self.op == "gt" else NotImplemented


class Untrue:
    def __bool__(self):
        raise Boom("truth")


class Acc(list):
    """+= changes it in place, + does not"""

    def __radd__(self, o):
        return Acc(self)

    def __add__(self, o):
        return Acc(list(self) + list(o))


async def agen(n, d):
    for k in range(n):
        if d:
            await asyncio.sleep(d)
        yield k


async def coro(n):
    return list(range(n))


SOURCES = {
    "list": lambda n: [list(range(n))],
    "gen": lambda n: [(k for k in range(n))],
    "agen": lambda n: [agen(n, 0)],
    "slow": lambda n: [agen(n, 1)],
    "coro": lambda n: [coro(n)],
    "two": lambda n: [list(range(n)), agen(n, 0.5)],
}
OPS = ("all", "any", "sum", "min", "max")


def results(vals, delays):
    runs = {}

    async def fn(k):
        runs[k] = runs.get(k, 0) + 1
        await asyncio.sleep(delays[k])
        v = vals[k]
        if isinstance(v, Exception):
            raise v
        return v

    return fn, runs


def builtin(op, seq):
    try:
        return ("ok", getattr(builtins, op)(seq))
    except Exception as e:
        return ("exc", type(e), e)


def same(got, want, what, vals, exact=True):
    if want[0] == "ok":
        check(got[0] == "ok", f"{what} of {vals}: {got}, the built-in gives {want[1]!r}")
        a, b = got[1], want[1]
        if exact and any(b is v for v in vals):
            check(a is b, f"{what} of {vals}: got {a!r}, the built-in gives {b!r}, an equal but different one")
        check(type(a) is type(b) and a == b, f"{what} of {vals}: got {a!r}, the built-in gives {b!r}")
    else:
        check(got[0] == "exc", f"{what} of {vals}: got {got}, the built-in raises {want[2]!r}")
        check(issubclass(got[1], want[1]), f"{what} of {vals}: got {got}, the built-in raises {want[2]!r}")


async def trying(aw):
    try:
        return ("ok", await asyncio.wait_for(aw, 500))
    except asyncio.TimeoutError as e:
        raise Bad("no answer")
    except Exception as e:
        return ("exc", type(e), e)


def call(tm, op, pop):
    m = getattr(tm, op)
    return m(sync=False) if pop is None else m(pop=pop, sync=False)


DEFAULT_POP = {"all": True, "any": True, "max": True, "min": True, "sum": False}


def agg(op, vals, source, delays, pop, before):
    """before: let everything finish first"""

    async def main():
        n = len(vals)
        fn, runs = results(vals, delays)
        tm = TaskMapping(fn, *SOURCES[source](n))
        start = {"slow": lambda k: k + 1, "two": lambda k: 0}.get(source, lambda k: 0)
        done = sorted(range(n), key=lambda k: start(k) + delays[k])
        if before:
            await asyncio.sleep(100)
        got = await trying(call(tm, op, pop))
        distinct = len({start(k) + delays[k] for k in range(n)}) == n
        seq = [vals[k] for k in done]
        exact = distinct and not before
        if any(isinstance(v, Exception) for v in seq):
            # a failing key fails the aggregate, unless the answer was there before
            if exact:
                i = next(i for i, v in enumerate(seq) if isinstance(v, Exception))
                early = [v for v in seq[:i]]
                short = op == "all" and not builtins.all(early) or op == "any" and builtins.any(early)
                if short:
                    eq(got, ("ok", op == "any"), f"{op} of {seq}")
                else:
                    check(got[0] == "exc" and got[2] is seq[i], f"{op} of {seq}: {got}")
        elif exact:
            same(got, builtin(op, seq), op, seq)
        else:
            # any order of those that were done at the same time
            err = None
            for p in itertools.permutations(seq):
                try:
                    same(got, builtin(op, list(p)), op, list(p))
                    err = None
                    break
                except Bad as e:
                    err = e
            if err:
                raise err
        p = DEFAULT_POP[op] if pop is None else pop
        if p:
            eq(len(tm), 0, f"keys left after a popping {op}")
            try:
                await trying_raise(call(tm, op, True))
                raise Bad(f"a consumed mapping is consumed again by {op}")
            except RuntimeError:
                pass
        elif not any(isinstance(v, Exception) for v in vals):
            again = [x async for x in tm] if n else []
            eq(sorted(k for k, _ in again), list(range(n)), f"keys after {op}")
            for k, v in again:
                check(v is vals[k], f"result of {k} after {op}: {v!r}")
            for k in range(n):
                eq(runs[k], 1, f"runs for {k}")
            for op2 in OPS:
                got2 = await trying(call(tm, op2, False))
                for perm in itertools.permutations(vals):
                    try:
                        same(got2, builtin(op2, list(perm)), op2, list(perm))
                        break
                    except Bad as e:
                        last = e
                else:
                    raise Bad(f"after {op}: {last}")

    return main


async def trying_raise(aw):
    return await asyncio.wait_for(aw, 500)


def no_keys(op, pop, srcs):
    async def main():
        fn, runs = results([], [])
        tm = TaskMapping(fn, *srcs())
        got = await trying(call(tm, op, pop))
        same(got, builtin(op, []), op, [])

    return main


def sync_call(op, vals, pop):
    """from no loop"""

    def t():
        async def fn(k):
            await asyncio.sleep(0)
            return vals[k]

        loop = asyncio.new_event_loop()
        asyncio.set_event_loop(loop)
        try:
            tm = TaskMapping(fn, list(range(len(vals))))
            try:
                got = ("ok", getattr(tm, op)(pop=pop))
            except Exception as e:
                got = ("exc", type(e), e)
            err = None
            for p in itertools.permutations(vals):
                try:
                    same(got, builtin(op, list(p)), op, list(p), exact=False)
                    err = None
                    break
                except Bad as e:
                    err = e
            if err:
                raise err
        finally:
            loop.close()

    return t


def direct(op, vals, pop):
    """keys asked for one by one, no source"""

    async def main():
        fn, runs = results(vals, list(range(len(vals))))
        tm = TaskMapping(fn)
        for k in range(len(vals)):
            tm[k]
        got = await trying(call(tm, op, pop))
        same(got, builtin(op, vals), op, vals)
        eq(len(tm), 0 if pop else len(vals), "keys left")

    return main


def many(mains):
    def t():
        for what, m in mains:
            try:
                m() if getattr(m, "__name__", "") == "t" else run(m)
            except Bad as e:
                raise Bad(f"{what}: {e}")
            except Exception as e:
                raise Bad(f"{what}: {e!r}")

    return t


def rnd(seed):
    r = random.Random(seed)
    n = r.randint(1, 12)
    vals = [r.choice([Num(r.randint(-2, 3), i), Num(r.randint(0, 1), i)]) for i in range(n)] if r.random() < 0.5 else [r.choice((0, 1, True, 1.0, -3, 2.5, 1e16, -1e16, 0.0, False, 7)) for _ in range(n)]
    delays = [x + 0.01 for x in r.sample(range(n), n)]
    return agg(r.choice(OPS), vals, r.choice(["list", "gen", "agen", "coro", "two"]), delays, r.choice((True, False, None)), False) if n <= 6 else agg_one(r.choice(OPS), vals, delays, r.choice((True, False)))


def agg_one(op, vals, delays, pop):
    async def main():
        fn, runs = results(vals, delays)
        tm = TaskMapping(fn, list(range(len(vals))))
        got = await trying(call(tm, op, pop))
        seq = [vals[k] for k in sorted(range(len(vals)), key=lambda k: delays[k])]
        same(got, builtin(op, seq), op, seq)

    return main


def cases(tier):
    big = tier == "thorough"
    A, B, C = Num(1, "a"), Num(1, "b"), Num(0, "c")
    pools = {
        "numbers": [0, 1, 2, -1],
        "tagged": [A, B, C],
        "mixed": [1, True, 1.0, 0],
        "none": [None, 0, ""],
        "strings": ["b", "a", ""],
        "odd": [Untrue(), 1],
        "acc": [Acc([1]), Acc([2]), Acc()],
        "failing": [Boom(1), 1, 0],
        "gt only": [OneWay(1, "gt"), OneWay(2, "gt"), OneWay(1, "gt")],
        "lt only": [OneWay(1, "lt"), OneWay(2, "lt"), OneWay(1, "lt")],
    }
    orders = {n: list(itertools.permutations(range(n))) for n in range(5)}
    for op in OPS:
        for name, pool in pools.items():
            ms = []
            for n in range(1, 4 if not big else 5):
                for vals in itertools.product(pool, repeat=n):
                    for o in orders[n] if n < 3 or big else orders[n][::2]:
                        for pop in (True, False):
                            ms.append((f"{o} {pop}", agg(op, list(vals), "list", [x * 0.1 + 0.01 for x in o], pop, False)))
            yield f"{op} of {name}", many(ms)
        ms = []
        for source in SOURCES:
            for vals in ([0, 1, 2], [A, B, C], [C, B, A], [1, True, 1.0], [None], [0, 0], [5]):
                for o in orders[len(vals)]:
                    for pop in (True, False, None):
                        for before in (True, False):
                            ms.append((f"{source} {o} {pop} {before}", agg(op, vals, source, [x * 5 + 0.3 for x in o], pop, before)))
        yield f"{op} over sources", many(ms)
        ms = []
        for pop in (True, False, None):
            for what, srcs in {"list": lambda: [[]], "dict": lambda: [{}], "gen": lambda: [(x for x in ())], "agen": lambda: [agen(0, 0)], "coro": lambda: [coro(0)], "two": lambda: [[], agen(0, 1)], "lists": lambda: [[], ()]}.items():
                ms.append((f"{what} {pop}", no_keys(op, pop, srcs)))
        yield f"{op} of nothing", many(ms)
        yield f"{op}, sync", many([(f"{vals} {pop}", sync_call(op, vals, pop)) for vals in ([1, 2, 0], [0], [3, 3], [0, 0], [True, 1]) for pop in (True, False)])
        yield f"{op}, direct", many([(f"{vals} {pop}", direct(op, vals, pop)) for vals in ([1, 2, 0], [A, B, C], [C], [None], [1, True, 1.0], [0, 0]) for pop in (True, False)])
    for s in range(3000 if big else 200):
        yield f"random {s}", (lambda s=s: run(rnd(s)))
