"""Harness for C01, C02, C04 (and the function part of C03): a_sync(...)(fn)(*args, **kwargs) for arbitrary arguments.

Everything between the decorator and the user's function is the code of /repo, inlined from source; the user's function, the arguments, the
flag values and the event loop are arbitrary."""
from .common import *

DECOS = ("a_sync(default=D)(fn)", "a_sync(fn, default=D)", "a_sync(D)(fn)")
FUNCS = [
    "a_sync.a_sync.decorator:a_sync", "a_sync.a_sync.function:ASyncDecorator.__init__", "a_sync.a_sync.function:ASyncDecorator.__call__",
    "a_sync.a_sync.function:ASyncFunction.__init__", "a_sync.a_sync.function:ASyncFunction.__call__", "a_sync.a_sync.function:ASyncFunction.fn",
    "a_sync.a_sync.function:ASyncFunction._sync_default", "a_sync.a_sync.function:ASyncFunction._async_wrap", "a_sync.a_sync.function:ASyncFunction._sync_wrap",
    "a_sync.a_sync.function:ASyncFunction._modified_fn", "a_sync.a_sync.function:ASyncFunction._asyncified", "a_sync.a_sync.function:_run_sync",
    "a_sync.a_sync._kwargs:get_flag_name", "a_sync.a_sync._kwargs:is_sync", "a_sync.a_sync._flags:validate_and_negate_if_necessary",
    "a_sync.a_sync._flags:negate_if_necessary", "a_sync.a_sync._helpers:_await", "a_sync.a_sync._helpers:_asyncify", "a_sync.a_sync._helpers:get_event_loop",
    "a_sync.a_sync.modifiers.manager:ModifierManager.apply_async_modifiers", "a_sync.a_sync.modifiers.manager:ModifierManager.apply_sync_modifiers",
]


def decorate(run, fn, default, style):
    deco = run.world.fn("a_sync:a_sync")
    if style == 0:
        return run.call(run.call(deco, [], {"default": default} if default else {}), [fn], {})
    if style == 1:
        return run.call(deco, [fn], {"default": default} if default else {})
    return run.call(run.call(deco, [default] if default else [], {}), [fn], {})


class FunctionCall(Contract):
    functions = FUNCS
    assumes = (
        "user values: bool(flag value) does not raise",
        "asyncio loop.run_until_complete / get_event_loop, executor.submit, asyncio.wrap_future: modelled (pyvc/aio.py)",
        "functools.wraps, functools.cached_property, inspect.getfullargspec: modelled (pyvc/models.py)",
    )

    def __init__(self, aspect, is_coro, default, style):
        self.aspect, self.is_coro, self.default, self.style = aspect, is_coro, default, style
        self.name = f"{DECOS[style].replace('D', repr(default))}, {'coroutine' if is_coro else 'plain'} fn"
        self.must_cover = {
            "mode": ["sync call", "async call", "two flags", "no flag"],
            "run": ["fn returned", "fn raised"],
            "loop": ["in a running loop", "outside"] if is_coro else ["outside"],
        }[aspect]

    def run(self, run):
        asp = self.aspect
        rest_has_no_flags(run)
        fn = UserFn("fn", self.is_coro)
        wrapped = decorate(run, fn, self.default, self.style)
        args, kwargs, check_args = sym_call_args(run)
        flags = pick_flags(run, kwargs)
        if asp == "loop":
            run.hooks["loop_running"] = z3.Bool("inside_running_loop")
        if asp == "run":
            # the one RuntimeError message asyncio itself reserves ("already running") is C04's subject
            run.hooks["user_exc"] = lambda r, e: r.assume(z3.Function("str_of", V, z3.StringSort())(e.t) != z3.StringVal("This event loop is already running"))
        out = outcome_of(run, lambda: run.call(wrapped, args, kwargs))
        early = len(user_runs(run))
        if len(flags) == 2:
            run.cover("two flags")
            if asp == "mode":
                prove_exc(run, out, "TooManyFlags", "two flags raise TooManyFlags")
                run.prove(early == 0, "two flags: the function does not run")
            return
        if flags:
            want = flag_sync(run, *flags[0])
        else:
            run.cover("no flag")
            want = {"sync": True, "async": False, None: not self.is_coro}[self.default]
        want = run.branch(want)
        if asp == "loop":
            self.loop(run, fn, out, want, early)
            return
        run.cover("sync call" if want else "async call")
        if want:
            if asp == "mode":
                run.prove(early == 1, "synchronous call: the function has run when the call is over")
            uo = user_outcome(run)
            if asp == "run" and uo:
                prove_outcome(run, out, uo, "synchronous call: the caller gets the function's own outcome")
        else:
            ok = out[0] == "ret" and is_awaitable(run, out[1])
            if asp == "mode":
                run.prove(ok, "asynchronous call returns an awaitable")
                run.prove(early == 0, "asynchronous call: the function has not run before the await")
            if not ok:
                return
            run.hooks["loop_running"] = True
            out2 = outcome_of(run, lambda: run.await_(out[1]))
            if asp == "mode":
                run.prove(len(user_runs(run)) == 1, "asynchronous call: the function runs when awaited")
            uo = user_outcome(run)
            if asp == "run" and uo:
                prove_outcome(run, out2, uo, "asynchronous call: awaiting gives the function's own outcome")
        us = user_runs(run)
        if asp == "run":
            run.prove(len(us) == 1, "the function runs exactly once")
            for u in us[:1]:
                check_args(run, u[2], u[3], "the function gets the caller's arguments")
            if uo:
                run.cover("fn returned" if uo[0] == "ret" else "fn raised")

    def loop(self, run, fn, out, want, early):
        running = z3.Bool("inside_running_loop")
        if not want or not self.is_coro:
            run.cover("outside")
            return
        if run.branch(running):
            run.cover("in a running loop")
            prove_exc(run, out, "SyncModeInAsyncContextError", "synchronous call inside a running loop raises SyncModeInAsyncContextError")
            run.prove(early == 0, "synchronous call inside a running loop: the function does not run")
            return
        run.cover("outside")
        run.prove(early == 1, "outside a loop the synchronous call runs the function")
        uo = user_outcome(run)
        if not uo:
            return
        if uo[0] == "exc":
            # a RuntimeError of the function's own with exactly asyncio's message is indistinguishable from asyncio's
            run.assume(z3.Function("str_of", V, z3.StringSort())(uo[1].t) != z3.StringVal("This event loop is already running"))
        prove_outcome(run, out, uo, "outside a loop the caller gets the function's own outcome, RuntimeErrors included")


def all_calls(aspect):
    out = []
    for is_coro in (True, False):
        for default in (None, "sync", "async"):
            for style in ((0, 1, 2) if default else (0, 1)):
                out.append(FunctionCall(aspect, is_coro, default, style))
    return out
