"""asyncio tasks: futures (contracts/futures.py) that own a coroutine and may hold an exception: ghost map exc (none: a result)."""
from .futures import *


def tinit(run):
    init(run)
    run.gset("fut.exc", z3.Const(run.fresh_name("fut_exc"), VMap))


def texc(run, t):
    return z3.Select(run.gget("fut.exc"), t)


class TaskModel(FutModel):
    def getattr(self, run, o, name):
        t = o.t
        if name == "exception":

            def exception(r, a, k):
                if not r.branch(done(r, t)):
                    r.raise_("InvalidStateError", "Exception is not set.")
                if r.branch(cancelled(r, t)):
                    r.raise_("CancelledError")
                if r.branch(V.is_none(texc(r, t))):
                    return None
                return self.exc(r, t)

            return Native(name, exception)
        if name == "result":
            return Native(name, lambda r, a, k: self.get(r, t))
        if name in ("set_name", "get_name", "uncancel", "cancelling"):
            return Native(name, lambda r, a, k: r.event("task." + name, o, *a) and None)
        if name == "add_done_callback":
            return Native(name, lambda r, a, k: r.event("add_done_callback", o, a[0]))
        if name == "cancel":

            def cancel(r, a, k):
                r.event("task-cancel", o)
                return SBool(z3.Not(done(r, t)))

            return Native(name, cancel)
        if name == "_loop":
            return the_loop(run)
        if name == "get_loop":
            return Native(name, lambda r, a, k: the_loop(r))
        if name == "_source_traceback":
            return None if run.fork("no source traceback", "source traceback") == 0 else run.fresh("source_traceback")
        if name in ("_log_destroy_pending", "_log_traceback"):
            return True
        if name in ("num_waiters", "_waiters", "_key", "_queue"):
            run.raise_("AttributeError", name)  # a plain task has none of these
        if name == "__class__":
            return Ext("asyncio.Task", __import__("asyncio").Task)
        if name == "get_coro":
            return Native(name, lambda r, a, k: coro_of(r, o))
        return super().getattr(run, o, name)

    def setattr(self, run, o, name, v):
        if name not in ("_log_destroy_pending", "_log_traceback"):
            raise Unsupported(f"task.{name} = ...")
        run.event("task-setattr", o, name, v)

    def isinstance(self, run, o, c):
        import asyncio

        if isinstance(c, Ext) and isinstance(c.pyobj, type):
            if c.pyobj.__name__ == "_GatheringFuture":
                return z3.Function("is_gathering", V, z3.BoolSort())(o.t) if getattr(self, "any_future", False) else False
            return issubclass(asyncio.Task, c.pyobj)
        return False

    def isawaitable(self, run, o):
        return True

    def exc(self, run, t):
        e = SV(texc(run, t), EXC)
        k = V
        run.assume(z3.Not(z3.Or(k.is_none(e.t), k.is_boolv(e.t), k.is_intv(e.t), k.is_strv(e.t), k.is_consv(e.t), k.is_nilv(e.t))))
        return e

    def get(self, run, t):
        if not run.branch(done(run, t)):
            run.raise_("InvalidStateError", "Result is not set.")
        if run.branch(cancelled(run, t)):
            run.raise_("CancelledError")
        if run.branch(V.is_none(texc(run, t))):
            return run.from_V(result(run, t))
        raise PyExc(self.exc(run, t))

    def await_(self, run, o):
        t = o.t
        run.event("await", o)
        if run.branch(done(run, t)):
            return self.get(run, t)
        run.event("suspend", o)
        run.rely()
        if run.fork("task ended", "waiting task cancelled") == 0:
            run.assume(done(run, t))
            return self.get(run, t)
        h = run.hooks.get("await_cancelled")
        if h:
            h(run, o)
        run.raise_("CancelledError")


from pyvc.engine import EXC_MODEL as EXC

TASK = TaskModel()


def task_elem(run, t):
    return SV(z3.simplify(t), TASK)


def coro_of(run, o):
    for c, t in run.tasks:
        if t is o or t.t.eq(o.t):
            return c
    return None


def install_tasks(run):
    """loop.create_task(coro): a new pending task, which the loop will run; nothing of the coroutine runs now"""
    run.tasks = []
    run.hooks.setdefault("loop_running", True)

    def create_task(r, loop, a, k):
        c = a[0]
        if not isinstance(c, Coro) and not (isinstance(c, SV) and c.model is not None and getattr(c.model, "is_coroutine", False)):
            r.raise_("TypeError", f"a coroutine was expected, got {c!r}")
        t = new_future(r, "task")
        t.model = TASK
        r.tasks.append((c, t))
        r.event("create_task", t, c)
        if k.get("name") is not None:
            r.event("task.set_name", t, k["name"])
        return t

    run.hooks["loop_create_task"] = create_task
    run.hooks["loop_call_exception_handler"] = lambda r, loop, a, k: r.event("call_exception_handler", a[0]) and None
    run.hooks["debug_logs"] = lambda r: False
