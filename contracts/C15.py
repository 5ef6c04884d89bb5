"""create_task: one task per call, which runs the awaitable once and ends as it does; the set of persisted tasks."""
from .maps import *
from .tasks import *

M = "a_sync.asyncio.create_task:"
FUNCS = [M + n for n in ("create_task", "ccreate_task", "ccreate_task_simple", "__set_task_name", "__await", "__prune_persisted_tasks", "__persisted_task_exc_wrap")]


def persisted_set(run, wrap):
    """the module's set of persisted tasks: whatever variable holds it; arbitrary contents"""
    m = run.world.module("a_sync.asyncio.create_task")
    found = [k for k, v in m.ns.items() if isinstance(v, SetObj)]
    if len(found) != 1:
        raise Unsupported("which variable holds the persisted tasks?")
    s = SymSet(run, "persisted", wrap)
    run.setattr_(m, found[0], s)
    return s


class Aw(FutModel):
    """an arbitrary awaitable that is no coroutine; each await is one run of it"""

    def __init__(self, kind):
        self.kind = kind

    def getattr(self, run, o, name):
        if name == "_children":
            return run.fresh("children")
        return UNSET

    def truth(self, run, o):
        return True

    def isawaitable(self, run, o):
        return True

    def isinstance(self, run, o, c):
        if isinstance(c, Ext) and isinstance(c.pyobj, type):
            n = c.pyobj.__name__
            if n == "_GatheringFuture":
                return self.kind == "gathering future"
            if n in ("Future",):
                return self.kind in ("future", "gathering future")
            return False
        return False

    def await_(self, run, o):
        run.event("user", o, (), {})
        run.rely()
        if run.fork("returns", "raises") == 0:
            r = run.fresh("result")
            run.event("user-ret", o, r)
            return r
        e = run.fresh_exc("error")
        run.event("user-exc", o, e)
        raise PyExc(e)


class Create(Contract):
    functions = FUNCS
    assumes = (
        "loop.create_task creates a pending task that will run its coroutine once and end with its outcome (asyncio)",
        "the loop's exception handler and logging do not raise (asyncio guarantees the former)",
        "an exception instance is truthy",
    )

    def __init__(self, kind, persist, entry):
        self.kind, self.persist, self.entry = kind, persist, entry
        self.name = f"{entry}: {kind}{', persisted' if persist else ''}"
        self.must_cover = ["created", "ran", "returned", "raised"] + (["keeper ran"] if persist else [])

    def rely(self, run):
        pass

    def run(self, run):
        tinit(run)
        install_tasks(run)
        g = run.fresh("any_task")
        run.hooks["points"] = lambda r: [g.t]
        S = persisted_set(run, task_elem)
        self.S, self.h0, self.g = S, S.has, g.t
        run.assume(z3.Implies(cancelled(run, g.t), done(run, g.t)))
        run.hooks["new_future"] = lambda r, f: (r.assume(z3.Not(z3.Select(self.h0, f.t))), r.assume(z3.Not(S.H(f.t))), r.assume(f.t != g.t))
        fn = UserFn("fn", True)
        if self.kind == "coroutine":
            aw = run.call(fn, [run.fresh("arg")], {})
        else:
            aw = run.fresh("awaitable")
            aw.model = Aw(self.kind)
            fn = aw
        args, kw = [aw], {}
        f = run.world.fn(M + self.entry)
        if self.entry == "create_task":
            if run.fork("no name", "name") == 1:
                kw["name"] = "a name"
            if self.persist:
                kw["skip_gc_until_done"] = True
            if run.fork("log", "no log") == 1:
                kw["log_destroy_pending"] = False
        elif self.entry == "ccreate_task":
            args += ["a name" if run.fork("no name", "name") == 1 else "", self.persist, run.fork("log", "no log") == 0]
        out = outcome_of(run, lambda: run.call(f, args, kw))
        run.cover("created")
        run.prove(out[0] == "ret", "creating a task never fails, whatever became of persisted tasks")
        if out[0] != "ret":
            return
        t = out[1]
        mine = [c for c, x in run.tasks if x is t]
        run.prove(len(mine) == 1, "the caller gets a task of the loop")
        run.prove(not user_runs(run), "nothing runs before the loop runs the task")
        run.prove(not [e for e in run.trace if e[0] == "task-cancel"], "no task is cancelled")
        if len(mine) != 1:
            return
        gt = self.g
        run.prove(S.H(gt) == z3.And(z3.Select(self.h0, gt), z3.Not(done(run, gt))), "a persisted task stays until it is done and is let go then")
        others = [(c, x) for c, x in run.tasks if x is not t]
        new = [x for c, x in run.tasks if run.holds(S.H(x.t))]
        if self.persist:
            run.prove(len(new) == 1 and len(others) <= 1, "exactly one new task is kept for a persisted task")
        else:
            run.prove(not new and not others, "nothing is kept for a task that is not persisted")
            run.prove(z3.And(*[z3.Not(S.H(x.t)) for c, x in run.tasks]), "a task that is not persisted is not kept")
        if self.persist and run.fork("run the task", "run the keeper") == 1:
            if new and new[0] is not t and others:
                # the keeper awaits the task, ends after it, cancels nothing, and does not fail with its outcome
                run.cover("keeper ran")
                e0 = len(run.trace)
                o2 = outcome_of(run, lambda: run.await_(others[0][0]))
                aws = [e for e in run.trace[e0:] if e[0] == "await"]
                run.prove(len(aws) == 1 and aws[0][1] is t, "what is kept waits for the task, so it lives as long")
                run.prove(not user_runs(run), "what is kept does not run the awaitable again")
                run.prove(not [e for e in run.trace if e[0] == "task-cancel"], "what is kept does not cancel the task")
                if o2[0] == "ret":
                    run.prove(done(run, t.t), "what is kept ends after the task")
            else:
                run.cover("keeper ran")
            return
        out = outcome_of(run, lambda: run.await_(mine[0]))
        run.cover("ran")
        run.prove(len(user_runs(run)) == 1 and user_runs(run)[0][1] is fn, "running the task runs the awaitable exactly once")
        uo = user_outcome(run)
        if uo is None:
            return
        if uo[0] == "ret":
            run.cover("returned")
            prove_outcome(run, out, uo, "the task's result is the awaitable's")
        else:
            run.cover("raised")
            if self.kind != "coroutine" and out[0] == "exc" and isinstance(out[1], Obj):
                prove_exc(run, out, "RuntimeError", "the task fails with the awaitable's exception, or with a RuntimeError")
                run.prove(run.isinstance_(uo[1], Ext("builtins.RuntimeError", RuntimeError)), "only a RuntimeError may arrive as another one")
            else:
                prove_outcome(run, out, uo, "the task fails with the awaitable's exception")

    def invariants(self, run, loop_id, st, fr, cur):
        g = getattr(self, "g", None)
        if g is None or not isinstance(cur, SeqCursor):
            return
        S = self.S
        yield "passed tasks are gone if done, others as they were", lambda: S.H(g) == z3.And(z3.Select(self.h0, g), z3.Not(z3.And(contains(cur.P, g), done(run, g))))
        for i, (c, x) in enumerate(run.tasks):
            yield f"new task {i} kept", lambda x=x: S.H(x.t)
            yield f"new task {i} not kept", lambda x=x: z3.Not(S.H(x.t))
            yield f"new task {i} pending", lambda x=x: z3.Not(done(run, x.t))


from pyvc.engine import SeqCursor


def contracts():
    out = [Create("coroutine", False, "ccreate_task_simple"), Create("other awaitable", False, "ccreate_task_simple")]
    for kind in ("coroutine", "other awaitable", "future", "gathering future"):
        for p in (False, True):
            for e in ("create_task", "ccreate_task"):
                out.append(Create(kind, p, e))
    return out
