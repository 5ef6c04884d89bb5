"""which mode a call without a flag has"""
import gc
import itertools

from drivers.dual import *

SPACE = "functions: kind x default x decorator form; methods: 7 ways an object gets its mode x value x method kind x method default, several instances with different modes interleaved, subclasses, properties, classes that were garbage-collected, several calls each"


def fn_case(kind, default, style):
    def thunk():
        log = []
        f = deco(make_fn(kind, log, lambda: "r"), default, style)
        exp = {"sync": True, "async": False, None: kind == "plain"}[default]
        for i in range(3):
            del log[:]
            out = call_and_settle(lambda: f(i, k=2), log, exp, f"{kind} default={default}, call {i}")
            eq(out, ("ok", "r"), "outcome")
            eq(log, [((i,), {"k": 2})], "what the function received")

    return thunk


def methods_of(log, ns):
    for kind in ("coro", "plain"):
        for default in DEFAULTS:
            def mk(kind=kind, default=default):
                if kind == "coro":
                    async def m(self, x):
                        log.append(x)
                        return ("r", x)
                else:
                    def m(self, x):
                        log.append(x)
                        return ("r", x)
                return a_sync.a_sync(default=default)(m) if default else m

            ns[f"m_{kind}_{default}"] = mk()


HOWS = ("ctor sync", "ctor asynchronous", "ctor default sync", "ctor default asynchronous", "class sync", "class asynchronous", "instance attribute", "ctor kwonly", "ctor over class attribute", "class over parent")


def make_class(how, v, log, base=None):
    """-> (class, make an object whose mode is v (True: synchronous))"""
    ns = {}
    methods_of(log, ns)
    Base = a_sync.ASyncGenericBase
    if base is not None:
        return type(base)("Sub", (base,), ns)

    def init(self):
        Base.__init__(self)

    if how == "ctor sync":

        def init(self, sync):
            Base.__init__(self)
            self.sync = sync

        make = lambda K: K(sync=v)
    elif how == "ctor asynchronous":

        def init(self, asynchronous=True):
            Base.__init__(self)
            self.asynchronous = asynchronous

        make = lambda K: K(asynchronous=not v)
    elif how == "ctor over class attribute":
        ns["sync"] = not v

        def init(self, sync=False):
            Base.__init__(self)
            self.sync = sync

        make = lambda K: K(sync=v)
    elif how == "class over parent":
        Base0 = Base
        Base = type(Base0)("P", (Base0,), {"sync": not v, "__init__": lambda self: Base0.__init__(self)})
        ns["sync"] = v
        make = lambda K: K()
    elif how == "ctor kwonly":

        def init(self, *, sync=False):
            Base.__init__(self)
            self.sync = sync

        make = lambda K: K(sync=v)
    elif how == "ctor default sync":

        def init(self, sync=v):
            Base.__init__(self)
            self.sync = sync

        make = lambda K: K()
    elif how == "ctor default asynchronous":

        def init(self, asynchronous=not v):
            Base.__init__(self)
            self.asynchronous = asynchronous

        make = lambda K: K()
    elif how == "class sync":
        ns["sync"] = v
        make = lambda K: K()
    elif how == "class asynchronous":
        ns["asynchronous"] = not v
        make = lambda K: K()
    else:

        def init(self):
            Base.__init__(self)
            self.sync = v

        make = lambda K: K()
    ns["__init__"] = init
    return type(a_sync.ASyncGenericBase)("K", (Base,), ns), make


def use(o, v, log, what):
    for kind in ("coro", "plain"):
        for default in DEFAULTS:
            exp = {"sync": True, "async": False, None: kind == "plain" or v}[default]
            del log[:]
            out = call_and_settle(lambda: getattr(o, f"m_{kind}_{default}")(7), log, exp, f"{what}: {kind} method, default {default}, object mode {'sync' if v else 'async'}")
            eq(out, ("ok", ("r", 7)), "outcome")
            eq(log, [7], "runs")


def how_case(how, v):
    def thunk():
        log = []
        K, make = make_class(how, v, log)
        o = make(K)
        for i in range(3):
            use(o, v, log, f"call {i}")
        use(make(K), v, log, "another object")
        S = make_class(None, None, log, K)
        use(make(S), v, log, "subclass")
        use(o, v, log, "after the subclass was used")

    return thunk


def two_case(how, order):
    def thunk():
        log = []
        if how == "ctor sync":
            class P(a_sync.ASyncGenericBase):
                def __init__(self, sync):
                    a_sync.ASyncGenericBase.__init__(self)
                    self.sync = sync
        else:
            class P(a_sync.ASyncGenericBase):
                def __init__(self, asynchronous=False):
                    a_sync.ASyncGenericBase.__init__(self)
                    self.asynchronous = asynchronous
        K = make_class(None, None, log, P)
        mk = (lambda v: K(sync=v)) if how == "ctor sync" else (lambda v: K(asynchronous=not v))
        if how == "positional":
            mk = lambda v: K(not v)
        objs = [(mk(v), v) for v in order]
        for _ in range(2):
            for o, v in objs:
                use(o, v, log, f"objects {order}")
        # the methods kept by the user
        for o, v in objs:
            m = o.m_coro_None
            for o2, v2 in objs:
                use(o2, v2, log, f"objects {order}")
            del log[:]
            out = call_and_settle(lambda: m(7), log, v, f"objects {order}: a kept bound method")
            eq(out, ("ok", ("r", 7)), "outcome")

    return thunk


def prop_case(how, v, cached):
    """property without a default: the getter is a coroutine function, so the mode is the object's"""

    def thunk():
        log = []
        K, make = make_class(how, v, log)
        deco_ = (a_sync.aka.cached_property if cached else a_sync.aka.property)
        ns = {}

        async def get(self):
            log.append(1)
            return 5

        ns["p"] = deco_(get)
        for d in ("sync", "async"):
            async def get2(self):
                log.append(1)
                return 6

            ns["p_" + d] = deco_(d)(get2)
        S = type(K)("S", (K,), ns)
        o = make(S)
        for name, exp, val in (("p", v, 5), ("p_sync", True, 6), ("p_async", False, 6)):
            for i in range(2):
                if cached and i:
                    break
                del log[:]
                out = call_and_settle(lambda: getattr(o, name), log, exp, f"{'cached ' if cached else ''}property {name}, object mode {'sync' if v else 'async'}")
                eq(out, ("ok", val), "value")
                eq(log, [1], "getter runs")

    return thunk


def gc_case(variant):
    def thunk():
        for i in range(60):
            log = []
            how, v = (("ctor default sync", False), ("ctor default asynchronous", True), ("class sync", True), ("class sync", False))[i % 2 + 2 * variant]
            K, make = make_class(how, v, log)
            o = make(K)
            use(o, v, log, f"class {i}, after others were collected")
            del K, make, o
            gc.collect()

    return thunk


def plain_class():
    """a decorated method of a class that is no dual-mode class: the function's default, else its kind"""
    for default in DEFAULTS:
        for kind in ("coro", "plain"):
            log = []

            class P:
                pass

            def run_(self, x):
                log.append(x)
                return "r"

            async def arun(self, x):
                log.append(x)
                return "r"

            m = arun if kind == "coro" else run_
            ds = a_sync.a_sync(default=default)(m) if default else a_sync.a_sync(m)
            exp = {"sync": True, "async": False, None: kind == "plain"}[default]
            out = call_and_settle(lambda: ds(P(), 1), log, exp, f"function taking an object, {kind}, {default}")
            eq(out, ("ok", "r"), "outcome")


def cases(tier):
    for kind in ("coro", "plain"):
        for default in DEFAULTS:
            for style in (0, 1, 2) if default else (0, 1):
                yield f"fn:{kind}:{default}:{style}", fn_case(kind, default, style)
    for how in HOWS:
        for v in (True, False):
            yield f"how:{how}:{v}", how_case(how, v)
            for c in (0, 1):
                yield f"prop:{how}:{v}:{c}", prop_case(how, v, c)
    for how in ("ctor sync", "ctor asynchronous", "positional"):
        for order in itertools.product((True, False), repeat=3):
            if how != "positional" or True:
                yield f"two:{how}:{order}", two_case(how, order)
    yield "gc:0", gc_case(0)
    yield "gc:1", gc_case(1)
    yield "plain", plain_class
