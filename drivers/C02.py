"""one run, same arguments, same outcome"""
from drivers.dual import *

SPACE = "defaults x {coroutine, plain} x 3 decorator forms x call modes x outcomes (values incl. None/False/awaitable-free objects, exceptions) x argument shapes"
OBJ = object()
VALUES = {"None": None, "False": False, "0": 0, "obj": OBJ, "tuple": (1, 2), "list": [1], "exc-instance": ValueError("value, not raised")}
EXCS = {"Boom": Boom("x", 1), "RuntimeError": RuntimeError("mine"), "StopAsyncIteration": StopAsyncIteration(5), "KeyError": KeyError("k"), "TypeError": TypeError("t"), "AttributeError": AttributeError("a"), "norunning": RuntimeError("There is no current event loop in thread 'x'.")}
ARGS = [((), {}), ((1,), {}), ((1, None, OBJ), {"a": 1, "b": None}), ((), {"args": 1, "kwargs": 2}), (([1], {2: 3}), {"fn": 5, "default": "sync"})]


def one(kind, default, style, flags, vname, ai):
    def thunk():
        log = []

        def outcome():
            if vname in EXCS:
                raise EXCS[vname]
            return VALUES[vname]

        f = deco(make_fn(kind, log, outcome), default, style)
        args, kw = ARGS[ai]
        exp = want_sync(flags, {"sync": True, "async": False, None: kind == "plain"}[default])
        out = call_and_settle(lambda: f(*args, **kw, **flags), log, exp, f"{kind} default={default} {flags} {vname}")
        eq(len(log), 1, "number of runs")
        check(len(log[0][0]) == len(args) and all(x is y for x, y in zip(log[0][0], args)), f"positional arguments {log[0][0]!r} != {args!r}")
        check(set(log[0][1]) == set(kw) and all(log[0][1][k] is kw[k] for k in kw), f"keywords {log[0][1]!r} != {kw!r}")
        if vname in EXCS:
            check(out[0] == "exc" and out[1] is EXCS[vname], f"expected the function's exception {EXCS[vname]!r}, got {out!r}")
        else:
            check(out[0] == "ok" and out[1] is VALUES[vname], f"expected the function's value {VALUES[vname]!r}, got {out!r}")

    return thunk


def repeated(kind, default):
    def thunk():
        n = [0]
        log = []

        def outcome():
            n[0] += 1
            return n[0]

        f = deco(make_fn(kind, log, outcome), default, 0)
        for i in range(1, 5):
            log.clear()
            sync = i % 2 == 0
            out = call_and_settle(lambda: f(i, sync=sync), log, sync, f"call {i}")
            eq(out, ("ok", i), f"call {i}")
            eq(log, [((i,), {})], "runs")

    return thunk


def meth(kind, mode, vname):
    def thunk():
        log = []

        def outcome():
            if vname in EXCS:
                raise EXCS[vname]
            return VALUES[vname]

        fn = make_fn(kind, log, outcome)

        class K(a_sync.ASyncGenericBase):
            def __init__(self):
                a_sync.ASyncGenericBase.__init__(self)
                self.sync = mode == "sync"

            if kind == "coro":
                async def m(self, *a, **k):
                    return await fn(self, *a, **k)
            else:
                def m(self, *a, **k):
                    return fn(self, *a, **k)

        k = K()
        out = call_and_settle(lambda: k.m(OBJ, z=None, sync=mode == "sync"), log, mode == "sync", f"method {kind} {mode} {vname}")
        eq(len(log), 1, "number of runs")
        check(log[0][0][0] is k and log[0][0][1:] == (OBJ,) and log[0][1] == {"z": None}, f"arguments {log[0]!r}")
        want = EXCS.get(vname, None)
        if want is not None:
            check(out[0] == "exc" and out[1] is want, f"expected {want!r}, got {out!r}")
        else:
            check(out[0] == "ok" and out[1] is VALUES[vname], f"expected {VALUES[vname]!r}, got {out!r}")

    return thunk


def cases(tier):
    for kind in ("coro", "plain"):
        for default in DEFAULTS:
            yield f"repeated:{kind}:{default}", repeated(kind, default)
        for mode in ("sync", "async"):
            for v in list(VALUES) + list(EXCS):
                yield f"method:{kind}:{mode}:{v}", meth(kind, mode, v)
        for v in list(VALUES) + list(EXCS):
            if v == "StopAsyncIteration" and kind == "coro":
                continue  # the language itself turns it into a RuntimeError
            for default in DEFAULTS:
                for style in (0, 1, 2) if default else (0, 1):
                    for fl in ({}, {"sync": True}, {"asynchronous": True}):
                        for ai in range(len(ARGS)) if tier == "thorough" else ((len(v) + style) % len(ARGS),):
                            yield f"fn:{kind}:{default}:{style}:{fl}:{v}:{ai}", one(kind, default, style, fl, v, ai)
