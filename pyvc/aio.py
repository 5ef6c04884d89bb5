"""Models of the event loop, futures, tasks and executors (trusted; state what asyncio / concurrent.futures do).

A contract chooses the environment through run.hooks:
  loop_running -> bool / z3 Bool: the calling thread is inside a running event loop (default False)
"""
import types

import z3

from .frontend import Unsupported
from .values import *
from . import engine as E
from .engine import UNSET, PyExc, zbool, is_true, is_false


class UserFn(Val):
    """a user supplied function: plain or coroutine; every call is an event ("user", fn, args, kwargs); its outcome is arbitrary.

    outcome: what one run yields; by default either fresh value or fresh exception, remembered in .results"""

    def __init__(self, name, is_coro, outcome=None):
        self.name, self.is_coro = name, is_coro
        self.cls = Ext("types.FunctionType", types.FunctionType)
        self.outcome = outcome
        self.attrs = {}

    def __repr__(self):
        return f"<user {'coroutine ' if self.is_coro else ''}function {self.name}>"

    def iscoroutinefunction(self, run):
        return self.is_coro

    def getattr(self, run, name):
        if name in self.attrs:
            return self.attrs[name]
        if name in ("__name__", "__qualname__"):
            return self.name
        if name == "__module__":
            return "user"
        if name == "__doc__":
            return None
        if name == "__dict__":
            return run.dict({})
        if name == "__get__":
            return Native("__get__", lambda r, a, k: Bound(self, a[0]) if a and a[0] is not None else self)
        run.raise_("AttributeError", name)

    def setattr(self, run, name, v):
        self.attrs[name] = v

    def body(self, run, args, kwargs):
        run.event("user", self, tuple(args), dict(kwargs))
        if self.outcome:
            return self.outcome(run, self, args, kwargs)
        if run.fork(f"{self.name} returns", f"{self.name} raises") == 0:
            r = run.fresh("result_" + self.name)
            if "user_ret" in run.hooks:
                run.hooks["user_ret"](run, r)
            run.event("user-ret", self, r)
            return r
        e = run.fresh_exc("error_" + self.name)
        if "user_exc" in run.hooks:
            run.hooks["user_exc"](run, e)
        run.event("user-exc", self, e)
        raise PyExc(e)

    def call(self, run, args, kwargs):
        if not self.is_coro:
            return self.body(run, args, kwargs)
        run.event("user-create", self)
        return Coro(lambda: (getattr(self, "no_rely", False) or run.rely(), self.body(run, args, kwargs))[1], self.name, list(args), dict(kwargs), self)


class LoopVal(Heap):
    """an event loop"""

    def __init__(self, running=False):
        self.running = running
        self.cls = Ext("asyncio.AbstractEventLoop", __import__("asyncio").AbstractEventLoop)

    def truth(self, run):
        return True

    def getattr(self, run, name):
        f = globals().get("loop_" + name)
        if f is None:
            h = run.hooks.get("loop_" + name)
            if h:
                return Native("loop." + name, lambda r, a, k: h(r, self, a, k))
            return UNSET
        return Native("loop." + name, lambda r, a, k: f(r, self, a, k))


def loop_run_until_complete(run, self, a, k):
    running = run.hooks.get("loop_running", False)
    if callable(running):
        running = running(run)
    if run.branch(zbool(running) if not isinstance(running, bool) else running):
        run.event("run_until_complete-refused", a[0])
        run.raise_("RuntimeError", "This event loop is already running")
    run.event("run_until_complete", a[0])
    saved = run.hooks.get("loop_running", False)
    run.hooks["loop_running"] = True
    try:
        return run.await_(a[0])
    finally:
        run.hooks["loop_running"] = saved


class Timer(Heap):
    """asyncio.TimerHandle"""

    def __init__(self, loop, fn, args):
        self.loop, self.fn, self.args = loop, fn, args
        self.fields = {}

    def locs(self):
        return dict(self.fields)

    def setloc(self, k, v):
        self.fields[k] = v

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name == "cancel":
            return Native("cancel", lambda r, a, k: r.event("timer-cancel", self) and None)
        if name == "_loop":
            return self.loop
        if name in self.fields:
            return self.fields[name]
        return UNSET

    def setattr(self, run, name, v):
        run.write(self, name, v)


def loop_time(run, self, a, k):
    return run.fresh("loop_time", "real")


def loop_call_at(run, self, a, k):
    t = run.new(Timer(self, a[1], a[2:]))
    run.event("timer", t)
    return t


loop_call_later = loop_call_at


def loop_is_running(run, self, a, k):
    r = run.hooks.get("loop_running", False)
    return r if isinstance(r, bool) else SBool(r)


def loop_is_closed(run, self, a, k):
    return False


def loop_get_debug(run, self, a, k):
    return False


def the_loop(run):
    if not hasattr(run, "_loop"):
        run._loop = run.new(LoopVal())
    return run._loop


class ConcFut(Heap):
    """concurrent.futures.Future of a submitted call"""

    def __init__(self, out):
        self.out = out
        self.cls = Ext("concurrent.futures.Future", __import__("concurrent.futures").futures.Future)

    def getattr(self, run, name):
        if name == "result":
            def result(r, a, k):
                return settle(r, self.out)

            return Native("Future.result", result)
        return UNSET


class WrappedFut(Heap):
    """asyncio future of a concurrent one: resolves with its outcome"""

    def __init__(self, out):
        self.out = out
        self.cls = Ext("asyncio.Future", __import__("asyncio").Future)

    def await_(self, run):
        run.rely()
        return settle(run, self.out)

    def getattr(self, run, name):
        if name == "__await__":
            return Native("__await__", lambda r, a, k: E.AwaitIter(self))
        return UNSET


def settle(run, out):
    if out[0] == "exc":
        raise PyExc(out[1])
    return out[1]


def outcome_of(run, thunk):
    try:
        return ("ret", thunk())
    except PyExc as e:
        return ("exc", e.value)


def install(world):
    reg = lambda p, f: world.register(p, Native(p, f))

    def get_event_loop(run, a, k):
        running = run.hooks.get("loop_running", False)
        if run.branch(zbool(running) if not isinstance(running, bool) else running):
            return the_loop(run)
        if hasattr(run, "_loop"):
            return run._loop
        c = run.fork("thread has an event loop", "thread has no event loop")
        if c == 1:
            run.raise_("RuntimeError", "There is no current event loop in thread 'T'.")
        return the_loop(run)

    def get_running_loop(run, a, k):
        running = run.hooks.get("loop_running", True)
        if run.branch(zbool(running) if not isinstance(running, bool) else running):
            return the_loop(run)
        run.raise_("RuntimeError", "no running event loop")

    reg("asyncio.get_event_loop", get_event_loop)
    reg("asyncio.get_running_loop", get_running_loop)
    reg("asyncio.new_event_loop", lambda run, a, k: the_loop(run))
    reg("asyncio.set_event_loop", lambda run, a, k: None)

    def submit(run, a, k):
        """executor.submit(fn, *a, **k): fn runs once, in a worker thread; the future gets its outcome (any exception)"""
        run.event("submit", a[0])
        saved = run.hooks.get("loop_running", False)
        run.hooks["loop_running"] = False
        try:
            out = outcome_of(run, lambda: run.call(a[0], a[1:], k))
        finally:
            run.hooks["loop_running"] = saved
        return run.new(ConcFut(out))

    world.models["concurrent.futures.ThreadPoolExecutor().submit"] = Native("ThreadPoolExecutor.submit", submit)
    world.submit = submit

    def wrap_future(run, a, k):
        if isinstance(a[0], ConcFut):
            return run.new(WrappedFut(a[0].out))
        raise Unsupported(f"wrap_future of {a[0]!r}")

    reg("asyncio.futures.wrap_future", wrap_future)
    reg("asyncio.wrap_future", wrap_future)
