"""Methods of classes written by the user: the class goes through ASyncMeta.__new__ of /repo, everything between the attribute access and
the user's function is the code of /repo; the constructor flag's or class default's value, arguments, call flags and the event loop are
symbolic."""
from .common import *

M_ = "a_sync.a_sync.method:"
CLASSES = {
    # how the object gets its mode: (source of the class head, source of the construction, name of the mode flag)
    "constructor flag sync": ("def __init__(self, sync=DEFAULT):\n        ASyncGenericBase.__init__(self)\n        self.sync = sync", "K(sync=VALUE)", True),
    "constructor flag asynchronous": ("def __init__(self, asynchronous=DEFAULT):\n        ASyncGenericBase.__init__(self)\n        self.asynchronous = asynchronous", "K(asynchronous=VALUE)", False),
    "constructor default": ("def __init__(self, *, sync=DEFAULT):\n        ASyncGenericBase.__init__(self)\n        self.sync = sync", "K()", True),
    "class attribute": ("sync = DEFAULT", "K()", True),
    "class attribute asynchronous": ("asynchronous = DEFAULT\n    def __init__(self):\n        ASyncGenericBase.__init__(self)", "K()", False),
    "instance attribute": ("def __init__(self, mode=None):\n        ASyncGenericBase.__init__(self)\n        self.asynchronous = VALUE", "K()", False),
    # with a parent class: (..., source of the parent's head, whose method it is)
    "constructor flag over a class attribute": ("sync = OTHER\n    def __init__(self, sync=DEFAULT):\n        ASyncGenericBase.__init__(self)\n        self.sync = sync", "K(sync=VALUE)", True),
    "class attribute of a parent": ("pass", "K()", True, "sync = DEFAULT"),
    "class attribute over a parent's": ("sync = DEFAULT", "K()", True, "sync = OTHER"),
    "constructor of a parent": ("pass", "K(sync=VALUE)", True, "def __init__(self, sync=DEFAULT):\n        ASyncGenericBase.__init__(self)\n        self.sync = sync"),
    "constructor, the method a parent's": ("def __init__(self, asynchronous=DEFAULT):\n        ASyncGenericBase.__init__(self)\n        self.asynchronous = asynchronous", "K(asynchronous=VALUE)", False, "pass", "P0"),
    "own class attribute, the method a parent's with another": ("sync = DEFAULT", "K()", True, "sync = OTHER", "P0"),
}
METHODS = {
    "method": "",
    "method with default sync": "@a_sync('sync')\n    ",
    "method with default async": "@a_sync(default='async')\n    ",
}



class MethodCall(Contract):
    """aspects: default (no flag; C03), mode (with flags; C01), run (C02), loop (C04)"""

    functions = [
        M_ + "ASyncMethodDescriptor.__get__", M_ + "ASyncBoundMethod.__init__", M_ + "ASyncBoundMethod.__call__", M_ + "ASyncBoundMethod.__self__", M_ + "_should_await", M_ + "_is_a_sync_instance", M_ + "_update_cache_timer",
        "a_sync.a_sync._descriptor:ASyncDescriptor.__init__", "a_sync.a_sync._descriptor:ASyncDescriptor.__set_name__", "a_sync.a_sync._meta:ASyncMeta.__new__",
        "a_sync.a_sync.abstract:ASyncABC.__init__", "a_sync.a_sync.abstract:ASyncABC.__a_sync_should_await__", "a_sync.a_sync.abstract:ASyncABC.__a_sync_instance_should_await__",
        "a_sync.a_sync.base:ASyncGenericBase.__init__", "a_sync.a_sync.base:ASyncGenericBase.__a_sync_flag_name__", "a_sync.a_sync.base:ASyncGenericBase.__a_sync_flag_value__",
        "a_sync.a_sync.base:_get_a_sync_flag_name_from_signature", "a_sync.a_sync.base:_parse_flag_name_from_list", "a_sync.a_sync.base:_get_init_signature",
    ]
    assumes = (
        "inspect.signature, weakref, timers, type.__new__: modelled", "the flag an object is built with is a bool (others raise InvalidFlagValue)",
        "the method's own result is not itself awaitable", "a RuntimeError of the method's own does not carry asyncio's 'already running' message",
    )

    def __init__(self, aspect, how, deco, is_coro):
        self.aspect, self.how, self.deco, self.is_coro = aspect, how, deco, is_coro
        self.name = f"{deco}, {'coroutine' if is_coro else 'plain'}, object mode by {how}"
        self.must_cover = {"default": ["sync object", "async object", "second call"], "mode": ["sync call", "async call", "two flags"], "run": ["sync call", "async call"], "loop": ["in a running loop", "outside"]}[aspect]

    def run(self, run):
        rest_has_no_flags(run)
        run.hooks["loop_running"] = False
        run.hooks["user_exc"] = lambda r, e: r.assume(z3.Function("str_of", V, z3.StringSort())(e.t) != z3.StringVal("This event loop is already running"))
        run.hooks["user_ret"] = lambda r, v: r.assume(z3.Not(z3.Function("isawaitable", V, z3.BoolSort())(v.t)))
        head, make, affirmative, parent, whose = CLASSES[self.how] + (None, "K")[len(CLASSES[self.how]) - 3:]
        value, dflt = run.fresh("VALUE", "bool"), run.fresh("DEFAULT", "bool")
        fn = UserFn("fn", self.is_coro)
        method = f"""
    {METHODS[self.deco]}{'async ' if self.is_coro else ''}def m(self, *args, **kwargs):
        return {'await ' if self.is_coro else ''}FN(self, *args, **kwargs)
"""
        src = f"""
from a_sync import ASyncGenericBase, a_sync
""" + (f"""
class P0(ASyncGenericBase):
    {parent}
{method if whose == "P0" else ""}
""" if parent else "") + f"""
class K({"P0" if parent else "ASyncGenericBase"}):
    {head}
{method if whose == "K" else ""}
o = {make}
"""
        ns = user_module(run, src, FN=fn, VALUE=value, DEFAULT=dflt, OTHER=run.fresh("OTHER", "bool"))
        o = ns["o"]
        pick = value if "VALUE" in make + head else dflt
        sync_mode = pick.t if affirmative else z3.Not(pick.t)
        if "default" in self.deco:
            want = not self.deco.endswith("async")
        else:
            want = True if not self.is_coro else sync_mode
        if self.aspect == "default":
            run.cover("sync object" if run.branch(sync_mode) else "async object")
        for turn in range(2 if self.aspect in ("default", "run") else 1):
            if not self.one(run, o, fn, want):
                return
            if turn:
                run.cover("second call")

    def one(self, run, o, fn, want):
        asp = self.aspect
        t0 = len(run.trace)
        args, kwargs, check_args = sym_call_args(run)
        flags = pick_flags(run, kwargs) if asp != "default" else []
        running = z3.Bool("inside_running_loop")
        if asp == "loop":
            run.hooks["loop_running"] = running
        out = outcome_of(run, lambda: run.call(run.getattr_(o, "m"), args, kwargs))
        early = len([e for e in run.trace[t0:] if e[0] == "user"])
        if len(flags) == 2:
            run.cover("two flags")
            if asp == "mode":
                prove_exc(run, out, "TooManyFlags", "two flags raise TooManyFlags")
                run.prove(early == 0, "two flags: the method does not run")
            return False
        if flags:
            want = flag_sync(run, *flags[0])
        w = want if isinstance(want, bool) else run.branch(want)
        if asp == "loop":
            if not w or not self.is_coro:
                run.cover("outside")
                return False
            if run.branch(running):
                run.cover("in a running loop")
                prove_exc(run, out, "SyncModeInAsyncContextError", "synchronous call inside a running loop raises SyncModeInAsyncContextError")
                run.prove(early == 0, "synchronous call inside a running loop: the method does not run")
                return False
            run.cover("outside")
            run.prove(early == 1, "outside a loop the synchronous call runs the method")
            uo = user_outcome_in(run, t0)
            if uo:
                prove_outcome(run, out, uo, "outside a loop the caller gets the method's own outcome, RuntimeErrors included")
            return False
        run.cover("sync call" if w else "async call")
        if w:
            if asp != "run":
                run.prove(early == 1, "synchronous mode: the body has run when the call is over")
                run.prove(not (out[0] == "ret" and is_awaitable(run, out[1])), "synchronous mode: the result is plain")
        else:
            ok = out[0] == "ret" and is_awaitable(run, out[1])
            if asp != "run":
                run.prove(ok, "asynchronous mode: the result is an awaitable")
                run.prove(early == 0, "asynchronous mode: the body has not run before the await")
            if not ok:
                return False
            run.hooks["loop_running"] = True
            out = outcome_of(run, lambda: run.await_(out[1]))
            run.hooks["loop_running"] = False
        us = [e for e in run.trace[t0:] if e[0] == "user"]
        uo = user_outcome_in(run, t0)
        if asp != "mode":
            if uo:
                prove_outcome(run, out, uo, "the caller gets the body's own outcome")
            run.prove(len(us) == 1, "the body runs once")
            for u in us[:1]:
                run.prove(u[2] and u[2][0] is o, "the body gets the object")
                check_args(run, u[2][1:], u[3], "the body gets the caller's arguments")
        return uo is not None and uo[0] == "ret"


def user_outcome_in(run, t0):
    for e in run.trace[t0:]:
        if e[0] == "user-ret":
            return ("ret", e[2])
        if e[0] == "user-exc":
            return ("exc", e[2])
    return None


def methods(aspect, hows=("constructor flag sync", "class attribute asynchronous")):
    return [MethodCall(aspect, how, deco, is_coro) for how in hows for deco in METHODS for is_coro in (True, False) if aspect != "loop" or is_coro]
