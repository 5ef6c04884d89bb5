"""every combination of default, function kind, decorator style and call-time flags"""
import inspect

from drivers.dual import *

SPACE = "defaults x {coroutine, plain} x 3 decorator forms x {no flag, sync/asynchronous in {True,False,1,0,None,empty string,non-empty string}, both flags}; functions and methods"


def one(kind, default, style, flags):
    def thunk():
        log = []
        f = deco(make_fn(kind, log, lambda: "r"), default, style)
        exp = want_sync(flags, {"sync": True, "async": False, None: kind == "plain"}[default])
        kw = {"alpha": 1, "synch": 2, **flags}
        out = call_and_settle(lambda: f(1, 2, **kw), log, exp, f"{kind} default={default} {flags}")
        eq(out[0], "ok", "outcome")
        eq(log, [((1, 2), {"alpha": 1, "synch": 2})], "what the function received")

    return thunk


def both(kind, default, style, a, b):
    def thunk():
        log = []
        f = deco(make_fn(kind, log, lambda: "r"), default, style)
        try:
            r = f(1, sync=a, asynchronous=b)
        except a_sync.exceptions.TooManyFlags:
            r = None
        except Exception as e:
            raise Bad(f"two flags: raised {e!r}")
        else:
            if inspect.iscoroutine(r):
                r.close()
            raise Bad(f"two flags: returned {r!r} instead of raising TooManyFlags")
        eq(log, [], "two flags: the function ran")

    return thunk


def method(kind, default, flags, inst_sync):
    def thunk():
        log = []
        fn = make_fn(kind, log, lambda: "r")

        class K(a_sync.ASyncGenericBase):
            def __init__(self, sync):
                a_sync.ASyncGenericBase.__init__(self)
                self.sync = sync

            m = a_sync.a_sync(default)(fn) if default else fn

        if not default:
            async def m(self, *a, **k):
                return await fn(self, *a, **k)

            def ms(self, *a, **k):
                return fn(self, *a, **k)

            K = type(a_sync.ASyncGenericBase)("K", (a_sync.ASyncGenericBase,), {"__init__": K.__init__, "m": m if kind == "coro" else ms})
        k = K(inst_sync)
        exp = want_sync(flags, None)
        out = call_and_settle(lambda: k.m(1, alpha=3, **flags), log, exp, f"method {kind} default={default} {flags} on sync={inst_sync}")
        eq(out[0], "ok", "outcome")
        eq([(a[1:], kw) for a, kw in log], [((1,), {"alpha": 3})], "what the method received")

    return thunk


def method_both(kind):
    def thunk():
        log = []
        fn = make_fn(kind, log, lambda: "r")

        class K(a_sync.ASyncGenericBase):
            def __init__(self):
                a_sync.ASyncGenericBase.__init__(self)
                self.sync = True

            if kind == "coro":
                async def m(self, **k):
                    return await fn(self, **k)
            else:
                def m(self, **k):
                    return fn(self, **k)

        try:
            k = K()
            r = k.m(sync=True, asynchronous=True)
        except a_sync.exceptions.TooManyFlags:
            pass
        except Exception as e:
            raise Bad(f"two flags on a method: raised {e!r}")
        else:
            if inspect.iscoroutine(r):
                r.close()
            raise Bad(f"two flags on a method: returned {r!r}")
        eq(log, [], "two flags: the method ran")

    return thunk


def cases(tier):
    for kind in ("coro", "plain"):
        for default in DEFAULTS:
            for style in (0, 1, 2) if default else (0, 1):
                for fl in flagsets():
                    yield f"fn:{kind}:{default}:{style}:{fl}", one(kind, default, style, fl)
                for a in (True, False):
                    for b in (True, False):
                        yield f"both:{kind}:{default}:{style}:{a}:{b}", both(kind, default, style, a, b)
            for fl in flagsets():
                if fl:
                    for s in (True, False):
                        yield f"method:{kind}:{default}:{fl}:{s}", method(kind, default, fl, s)
        yield f"method-both:{kind}", method_both(kind)
