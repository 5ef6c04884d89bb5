"""expressions over futures against the same expressions over their results"""
import itertools
import operator

from a_sync.future import ASyncFuture, future

from drivers.lib import *

SPACE = "every operator x {future/plain, plain/future, two futures, one future twice} x operands awaited before or not x synchronous/asynchronous use x outcomes; nested expressions of depth 3 over all operators; conversions, indexing, attributes, context managers, iteration; 1-4 users of one future starting and asking at every step; decorated functions and methods"


class Boom(Exception):
    pass


class N:
    """a value whose operations are written down"""

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return self.s

    def __hash__(self):
        return hash(self.s)

    def __bool__(self):
        return not self.s.startswith("!")

    def __str__(self):
        return "str:" + self.s

    def __int__(self):
        return 41

    def __float__(self):
        return 4.5

    def __bytes__(self):
        return self.s.encode()

    def __getitem__(self, k):
        return f"{self.s}[{k!r}]"

    def __iter__(self):
        return iter([self.s, 1, 2])

    def __next__(self):
        return "next:" + self.s

    def __enter__(self):
        return "in:" + self.s

    def __exit__(self, *a):
        self.left = a
        return False

    def __contains__(self, x):
        return repr(x) in self.s

    color = "blue"


def _op(name, sym):
    def f(self, other):
        if isinstance(other, ASyncFuture):
            return NotImplemented
        if isinstance(other, N) and other.s == "boom" or self.s == "boom":
            raise Boom(name)
        return N(f"({self!r}{sym}{other!r})")

    return f


SYMS = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "pow": "**", "lt": "<", "gt": ">", "le": "<=", "ge": ">="}
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
for _n, _s in SYMS.items():
    setattr(N, f"__{_n}__", _op(_n, _s))


def _eq(self, other):
    if isinstance(other, ASyncFuture):
        return NotImplemented
    if "boom" in (self.s, getattr(other, "s", 0)):
        raise Boom("eq")
    return isinstance(other, N) and self.s == other.s


N.__eq__ = _eq


class Src:
    def __init__(self, value, error=None, steps=1):
        self.value, self.error, self.steps, self.runs = value, error, steps, 0

    async def coro(self):
        self.runs += 1
        await ticks(self.steps)
        if self.error is not None:
            raise self.error
        return self.value

    def future(self):
        return ASyncFuture(self.coro())


def norm(v):
    return v.s if isinstance(v, N) else v


def flat(r, sym):
    """(a<b) may come back as (b>a)"""
    return r


def expected(f):
    try:
        return ("ok", norm(f()))
    except Boom as e:
        return ("exc", e.args)


def expected_set(fn, l, r, sym):
    out = [expected(lambda: fn(l, r))]
    if sym in FLIP:
        g = getattr(operator, {v: k for k, v in SYMS.items()}[FLIP[sym]])
        out.append(expected(lambda: g(r, l)))
    return out


async def got(aw):
    try:
        return ("ok", norm(await aw))
    except Boom as e:
        return ("exc", e.args)


def gots(f):
    try:
        return ("ok", norm(f()))
    except Boom as e:
        return ("exc", e.args)


def operands(kind, err, done):
    a = Src(N("a" if err != "op" else "boom"), Boom("of a") if err == "a" else None)
    b = Src(N("b"), Boom("of b") if err == "b" else None, 2)
    return a, b


def expr_case(name, kind, err, done, sync):
    sym = SYMS[name]
    fn = getattr(operator, name)

    def build():
        a, b = operands(kind, err, done)
        fa = a.future()
        fb = b.future() if kind == "FG" else None
        if kind == "Fx":
            l, r, vl, vr = fa, N("b"), a.value, N("b")
        elif kind == "xF":
            l, r, vl, vr = N("b"), fa, N("b"), a.value
        elif kind == "FG":
            l, r, vl, vr = fa, fb, a.value, b.value
        else:
            l, r, vl, vr = fa, fa, a.value, a.value
        if err == "a":
            want = [("exc", ("of a",))]
        elif err == "b" and kind == "FG":
            want = [("exc", ("of b",))]
        else:
            want = expected_set(fn, vl, vr, sym)
        return a, b, fa, fb, l, r, want

    if sync:

        def thunk():
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                a, b, fa, fb, l, r, want = build()
                if done and err != "a":
                    fa.result()
                e = fn(l, r)
                g = gots(lambda: e.result())
                check(g in want, f"{kind} {sym}: got {g}, expected {want[0]}")
                check(a.runs == 1 and b.runs == (1 if kind == "FG" else 0), f"operands ran {a.runs}, {b.runs} times")
            finally:
                asyncio.set_event_loop(None)
                loop.close()

        return thunk

    async def main():
        a, b, fa, fb, l, r, want = build()
        if done:
            await got(fa)
        e = fn(l, r)
        for i in range(2):
            g = await got(e)
            check(g in want, f"{kind} {sym}: got {g}, expected {want[0]}")
        check(a.runs == 1 and b.runs == (1 if kind == "FG" else 0), f"operands ran {a.runs}, {b.runs} times")

    return lambda: run(main)


def nested():
    """(x op y) op (y op z) with plain numbers in every mix of futures and plain values"""
    import random

    rng = random.Random(7)
    ops = ["add", "sub", "mul", "truediv", "floordiv", "pow"]

    async def main():
        for _ in range(400):
            o1, o2, o3 = (rng.choice(ops) for _ in range(3))
            vals = [N(c) for c in "xyz"]
            srcs = [Src(v, steps=rng.randrange(3)) for v in vals]
            mask = rng.randrange(1, 8)
            things = [s.future() if mask >> i & 1 else v for i, (s, v) in enumerate(zip(srcs, vals))]
            f1, f2, f3 = (getattr(operator, o) for o in (o1, o2, o3))
            want = f3(f1(vals[0], vals[1]), f2(vals[1], vals[2])).s
            e = f3(f1(things[0], things[1]), f2(things[1], things[2]))
            g = (await e).s
            check(g == want, f"got {g}, expected {want}")
            check(all(s.runs == (mask >> i & 1) for i, s in enumerate(srcs)), f"{want}: operands ran {[s.runs for s in srcs]} times")
            for s in srcs:
                if not s.runs:
                    s.coro().close()

    run(main)


ATONCE = {
    "F==x": (lambda F, G: F == N("a"), True), "F==y": (lambda F, G: F == N("q"), False), "x==F": (lambda F, G: N("a") == F, True), "F==G": (lambda F, G: F == G, False), "F==F": (lambda F, G: F == F, True),
    "F!=x": (lambda F, G: F != N("a"), False), "F!=G": (lambda F, G: F != G, True), "a in F": (lambda F, G: N("a") in F, True), "q in F": (lambda F, G: N("q") in F, False),
    "G in F": (lambda F, G: G in F, False), "not in": (lambda F, G: N("q") not in F, True),
    "int": (lambda F, G: int(F), 41), "float": (lambda F, G: float(F), 4.5), "str": (lambda F, G: str(F), "str:a"), "bytes": (lambda F, G: bytes(F), b"a"), "bool": (lambda F, G: bool(F), True),
    "[]": (lambda F, G: F["k"], "a['k']"), "attr": (lambda F, G: F.color, "blue"), "iter": (lambda F, G: list(F), ["a", 1, 2]), "next": (lambda F, G: next(F), "next:a"),
    "with": (lambda F, G: F.__enter__(), "in:a"), "result": (lambda F, G: F.result().s, "a"),
}


def atonce_case(name):
    f, want = ATONCE[name]

    def thunk():
        for err in (None, "a"):
            loop = asyncio.new_event_loop()
            asyncio.set_event_loop(loop)
            try:
                a, b = Src(N("a"), Boom("of a") if err else None), Src(N("b"))
                F, G = a.future(), b.future()
                for i in range(2):
                    g = gots(lambda: f(F, G))
                    w = ("exc", ("of a",)) if err and "F" != "" else ("ok", want)
                    check(g == w and type(g[1]) is type(w[1]), f"{name}, no loop running: got {g}, expected {w}")
                check(a.runs == 1, f"ran {a.runs} times")
                if not b.runs:
                    G.__awaitable__.close()
            finally:
                asyncio.set_event_loop(None)
                loop.close()

        async def main():
            a, b = Src(N("a")), Src(N("b"))
            F, G = a.future(), b.future()
            try:
                f(F, G)
                if name != "attr":
                    raise Bad(f"{name} of a future that is not done answered in a running loop")
            except RuntimeError:
                pass
            F, G = a.future(), b.future()
            a.runs = 0
            await F
            await G
            for i in range(2):
                g = gots(lambda: f(F, G))
                check(g == ("ok", want), f"{name}, done, in a running loop: got {g}, expected {want}")
            check(a.runs == 1, f"ran {a.runs} times")

        run(main)

    return thunk


def falsy():
    async def main():
        s = Src(N("!a"))
        F = s.future()
        await F
        check(bool(F) is False, "bool of a falsy result")

    run(main)


def users_case(n, err):
    """n users of one future, each starting after d steps; through the future itself or an expression"""

    async def main():
        for starts in itertools.product(range(4), repeat=n):
            for via in itertools.product((0, 1), repeat=n):
                s = Src(N("a"), Boom("of a") if err else None, 2)
                F = s.future()

                async def user(d, v):
                    await ticks(d)
                    return await got(F + N("b") if v else F)

                outs = await asyncio.gather(*[user(d, v) for d, v in zip(starts, via)])
                for o, v in zip(outs, via):
                    want = ("exc", ("of a",)) if err else ("ok", "(a+b)" if v else "a")
                    check(o == want, f"users starting at {starts} via {via}: got {o}, expected {want}")
                check(s.runs == 1, f"users starting at {starts}: ran {s.runs} times")

    return lambda: run(main)


def decorated():
    async def main():
        for kind in ("coro", "plain"):
            calls = []
            if kind == "coro":

                async def fn(*a, **k):
                    calls.append((a, k))
                    await ticks(1)
                    if a and a[-1] == "raise":
                        raise Boom("fn")
                    return N("r")
            else:

                def fn(*a, **k):
                    calls.append((a, k))
                    if a and a[-1] == "raise":
                        raise Boom("fn")
                    return N("r")

            for how in ("bare", "()", "method"):
                k = None
                if how == "bare":
                    f = future(fn)
                elif how == "()":
                    f = future()(fn)
                else:
                    K = type("K", (), {"m": future(fn)})
                    k = K()
                    f = k.m
                for args, kw in (((), {}), ((1, 2), {"z": 3}), (("raise",), {})):
                    del calls[:]
                    F = f(*args, **kw)
                    for i in range(2):
                        g = await got(F)
                        check(g == (("exc", ("fn",)) if "raise" in args else ("ok", "r")), f"{kind} {how}: got {g}")
                    check(calls == [(((k,) if k else ()) + args, kw)], f"{kind} {how}: called with {calls}")

    run(main, external=True)


def cases(tier="quick", rng=None):
    for name in SYMS:
        for kind in ("Fx", "xF", "FG", "FF"):

            def thunk(name=name, kind=kind):
                for err in (None, "a", "b", "op"):
                    for done in (0, 1):
                        for sync in (0, 1):
                            try:
                                expr_case(name, kind, err, done, sync)()
                            except Bad as e:
                                raise Bad(f"err={err} done={done} sync={sync}: {e}")

            yield f"{name}-{kind}", thunk
    for n in ATONCE:
        yield f"atonce-{n}", atonce_case(n)
    yield "falsy", falsy
    yield "nested", nested
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for err in (0, 1):
            yield f"users{n}-{err}", users_case(n, err)
    yield "decorated", decorated
