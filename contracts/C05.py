"""Call modifiers on a coroutine function: cache outermost, then the concurrency limit, then the rate limit, then the function.

The three modifiers' own libraries are used by contract: alru_cache(...)(f) either answers from its cache or calls f once with the same
arguments and passes its outcome on; AsyncLimiter and semaphores are entered (or the wait is cancelled) and left."""
import itertools

from .common import *
from .dualmode import FUNCS

S_ = "a_sync.primitives.locks.semaphore:"


class Ctx(Heap):
    """an asynchronous context manager whose entering and leaving are recorded"""

    def __init__(self, kind, ext, value=None):
        self.kind_, self.value = kind, value
        self.cls = ext

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name in ("__aenter__", "acquire"):
            return Native(name, lambda r, a, k: Coro(lambda: enter(r, self.kind_, self), name))
        if name in ("__aexit__",):
            return Native(name, lambda r, a, k: Coro(lambda: r.event("leave", self.kind_, self) and None, name))
        if name == "release":
            return Native(name, lambda r, a, k: r.event("leave", self.kind_, self))
        return UNSET


def enter(run, kind, o):
    run.event("wait", kind, o)
    if run.fork(f"{kind} entered", f"cancelled while waiting for the {kind}") == 1:
        run.raise_("CancelledError")
    run.event("enter", kind, o)


class CacheWrap(Heap):
    def __init__(self, fn, cfg):
        self.fn, self.cfg = fn, cfg
        self.cls = Ext("async_lru._LRUCacheWrapper")

    def iscoroutinefunction(self, run):
        return True

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name in ("__name__", "__qualname__", "__module__", "__doc__"):
            return name
        if name == "__wrapped__":
            return self.fn
        return UNSET

    def call(self, run, args, kwargs):
        def go():
            run.event("cache", self, args, kwargs)
            if run.fork("cache miss", "cache hit") == 1:
                v = run.fresh("cached")
                run.event("hit", v)
                return v
            return run.await_(run.call(self.fn, args, kwargs))

        return Coro(go, "cached", list(args), dict(kwargs), self)


class Stack(Contract):
    functions = FUNCS + [
        "a_sync.a_sync.modifiers.manager:ModifierManager.use_limiter", "a_sync.a_sync.modifiers.manager:ModifierManager.use_semaphore", "a_sync.a_sync.modifiers.manager:ModifierManager.use_cache",
        "a_sync.a_sync.modifiers.manager:ModifierManager.__getattribute__", "a_sync.a_sync.modifiers.limiter:apply_rate_limit", "a_sync.a_sync.modifiers.semaphores:apply_semaphore",
        "a_sync.a_sync.modifiers.cache:apply_async_cache", "a_sync.a_sync.modifiers.cache.memory:apply_async_memory_cache", S_ + "Semaphore.decorate", S_ + "ThreadsafeSemaphore.__init__",
    ]
    assumes = ("async_lru.alru_cache: a hit, or one call of the wrapped function with the same arguments", "aiolimiter.AsyncLimiter, asyncio.Semaphore: asynchronous context managers",
               "ThreadsafeSemaphore / Semaphore entering and leaving by their contracts (C06, C26)", "functools.wraps; asyncio.iscoroutinefunction")

    def __init__(self, cache, sem, lim, default, sync):
        self.cache, self.sem, self.lim, self.default, self.sync = cache, sem, lim, default, sync
        self.name = f"cache={cache} semaphore={sem} rate={lim} default={default!r} {'synchronous' if sync else 'asynchronous'} call"
        self.must_cover = ["returned", "raised"] + (["hit"] if cache else []) + (["cancelled"] if sem or lim else [])

    @property
    def summaries(self):
        d = {}
        for c in ("Semaphore", "ThreadsafeSemaphore"):
            d[S_ + c + ".__aenter__"] = lambda r, f, a, k: Coro(lambda: enter(r, "semaphore", a[0]), "sem.__aenter__")
            d[S_ + c + ".acquire"] = lambda r, f, a, k: Coro(lambda: enter(r, "semaphore", a[0]), "sem.acquire")
            d[S_ + c + ".__aexit__"] = lambda r, f, a, k: Coro(lambda: r.event("leave", "semaphore", a[0]), "sem.__aexit__")
            d[S_ + c + ".release"] = lambda r, f, a, k: r.event("leave", "semaphore", a[0])
        return d

    def ext_call(self, run, f, args, kwargs):
        if f.path.rpartition(".")[2] == "alru_cache":
            cfg = dict(kwargs)
            if args and (isinstance(args[0], (Closure, UserFn)) or hasattr(args[0], "iscoroutinefunction")):
                run.event("make", "cache", {"maxsize": 128, "ttl": None, "typed": False})
                return run.new(CacheWrap(args[0], cfg))
            for n, v in zip(("maxsize", "typed", "ttl"), args):
                cfg[n] = v

            def deco(r, a, k):
                r.event("make", "cache", cfg)
                return r.new(CacheWrap(a[0], cfg))

            return Native("alru_cache(...)", deco)
        if f.path.rpartition(".")[2] == "AsyncLimiter":
            run.event("make", "limiter", args, kwargs)
            return run.new(Ctx("limiter", f, args[0] if args else kwargs.get("max_rate")))
        return UNSET

    def config(self, run):
        mods = {}
        self.cfg = {"maxsize": None, "ttl": None, "typed": False}
        if self.cache:
            if "size" in self.cache:
                n = run.fresh("maxsize", "int")
                run.assume(n.t >= 1)
                mods["ram_cache_maxsize"] = self.cfg["maxsize"] = n
            if "ttl" in self.cache:
                n = run.fresh("ttl", "int")
                run.assume(n.t >= 1)
                mods["ram_cache_ttl"] = self.cfg["ttl"] = n
            if "type" in self.cache:
                mods["cache_type"] = "memory"
            if "typed" in self.cache.split("+"):
                mods["cache_typed"] = self.cfg["typed"] = True
        self.given = {}
        if self.sem == "int":
            n = run.fresh("limit", "int")
            run.assume(z3.And(n.t >= 1, n.t < 2**60))
            mods["semaphore"] = self.n = n
        elif self.sem == "Semaphore":
            mods["semaphore"] = self.given["semaphore"] = run.call(run.world.fn(S_ + "Semaphore"), [3], {})
        elif self.sem == "asyncio":
            import asyncio

            mods["semaphore"] = self.given["semaphore"] = run.new(Ctx("semaphore", Ext("asyncio.Semaphore", asyncio.Semaphore)))
        if self.lim == "int":
            n = run.fresh("rate", "int")
            run.assume(n.t >= 1)
            mods["runs_per_minute"] = self.rate = n
        elif self.lim == "AsyncLimiter":
            mods["runs_per_minute"] = self.given["limiter"] = run.new(Ctx("limiter", Ext("aiolimiter.AsyncLimiter")))
        return mods

    def run(self, run):
        run.hooks["ext_call"] = self.ext_call
        rest_has_no_flags(run)
        if self.sync:  # the wrapper recognises asyncio's own complaint by its text (C04)
            run.hooks["user_exc"] = lambda r, e: r.assume(z3.Function("str_of", V, z3.StringSort())(e.t) != z3.StringVal("This event loop is already running"))
        fn = UserFn("fn", True)
        fn.no_rely = True
        mods = self.config(run)
        if self.default:
            mods["default"] = self.default
        wrapped = run.call(run.call(run.world.fn("a_sync:a_sync"), [], mods), [fn], {})
        objs = []
        for turn in ("first", "second"):
            t0 = len(run.trace)
            args, kwargs, check_args = sym_call_args(run)
            k = dict(kwargs)
            k["sync"] = self.sync
            if self.sync:
                run.hooks["loop_running"] = False
                out = outcome_of(run, lambda: run.call(wrapped, args, k))
            else:
                run.hooks["loop_running"] = True
                co = outcome_of(run, lambda: run.call(wrapped, args, k))
                run.prove(co[0] == "ret" and is_awaitable(run, co[1]), "an asynchronous call returns an awaitable")
                if co[0] != "ret":
                    return
                out = outcome_of(run, lambda: run.await_(co[1]))
            tr = run.trace[t0:]
            self.check(run, tr, out, check_args)
            objs.append({e[1]: e[2] for e in tr if e[0] == "wait"})
            if turn == "first" and not any(e[0] == "user-ret" for e in tr):
                return
        for kind in set(objs[0]) & set(objs[1]):
            run.prove(objs[0][kind] is objs[1][kind], f"all calls share one {kind}")
        # configuration
        makes = [e for e in run.trace if e[0] == "make"]
        cm = [e for e in makes if e[1] == "cache"]
        run.prove(len(cm) == (1 if self.cache else 0), "the cache is applied exactly once, if configured")
        for e in cm[:1]:
            for n, want in self.cfg.items():
                got = e[2].get(n, {"maxsize": 128, "ttl": None, "typed": False}[n])
                run.prove(run.same(got, want) if want is None or isinstance(want, bool) else run.eq(got, want), f"cache configured with the given {n}")
        lm = [e for e in makes if e[1] == "limiter"]
        run.prove(len(lm) == (1 if self.lim == "int" else 0), "one limiter")
        for e in lm[:1]:
            run.prove(len(e[2]) == 1 and not e[3], "requests per minute")
            if e[2]:
                run.prove(run.eq(e[2][0], self.rate), "limiter configured with the given rate")
        s = objs[0].get("semaphore")
        if self.sem == "int" and s is not None:
            run.prove(run.eq(s.fields["_Semaphore__value"], self.n), "semaphore configured with the given limit") if "_Semaphore__value" in s.fields else None

    def check(self, run, tr, out, check_args):
        kinds = [("semaphore", self.sem), ("limiter", self.lim)]
        want = [k for k, on in kinds if on]
        seq = [(e[0], e[1]) if e[0] in ("wait", "enter", "leave") else (e[0],) for e in tr if e[0] in ("wait", "enter", "leave", "cache", "hit", "user")]
        hit = [e for e in tr if e[0] == "hit"]
        exp = [("cache",)] if self.cache else []
        if hit:
            run.cover("hit")
            run.prove(seq == exp + [("hit",)], "a cached answer needs neither limit nor the function")
            prove_outcome(run, out, ("ret", hit[0][1]), "a cached answer is handed out")
            return
        entered, blocked = [], None
        for k in want:
            exp.append(("wait", k))
            if ("enter", k) in seq:
                exp.append(("enter", k))
                entered.append(k)
            else:
                blocked = k
                break
        if blocked is None:
            exp.append(("user",))
        for k in reversed(entered):
            exp.append(("leave", k))
        run.prove(seq == exp, "cache, then concurrency limit, then rate limit, then the function; every limit entered is left")
        for kind, o in self.given.items():
            for e in tr:
                if e[0] == "wait" and e[1] == kind:
                    run.prove(e[2] is o, f"the configured {kind} object is used")
        us = [e for e in tr if e[0] == "user"]
        if blocked is not None:
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", "cancelled while waiting for a limit: the function does not run")
            return
        run.prove(len(us) == 1, "the function runs once")
        for u in us[:1]:
            check_args(run, u[2], u[3], "the function gets the caller's arguments")
        for e in tr:
            if e[0] == "cache":
                check_args(run, e[2], e[3], "the cache is keyed by the caller's arguments")
        uo = None
        for e in tr:
            if e[0] == "user-ret":
                uo = ("ret", e[2])
            elif e[0] == "user-exc":
                uo = ("exc", e[2])
        if uo:
            run.cover("returned" if uo[0] == "ret" else "raised")
            prove_outcome(run, out, uo, "the caller gets the function's own outcome")


def contracts():
    out = [Stack(c, s, l, None, False) for c in (None, "size") for s in (None, "int") for l in (None, "int")]
    out += [Stack("size+ttl+typed", "Semaphore", "AsyncLimiter", None, False), Stack("type", "asyncio", None, None, False), Stack("ttl", None, "AsyncLimiter", None, False), Stack("typed", "int", None, None, False)]
    out += [Stack("size", "int", "int", "sync", True), Stack(None, "int", "int", "async", True), Stack("size", "int", "int", None, True)]
    return out
