"""Ghost model of asyncio futures as opaque terms: maps  done, cancelled, result  over all futures.

A future starts pending; set_result/set_exception/cancel finish it (InvalidStateError if it is finished already).
`await fut`: other tasks run (contract.rely), then the future is done and gives its result, or it was cancelled, or failed, or the awaiting
task itself was cancelled (which, asyncio says, also cancels the future it waits for)."""
from .common import *

BoolMap = z3.ArraySort(V, z3.BoolSort())
VMap = z3.ArraySort(V, V)


def init(run):
    """arbitrary state of all futures"""
    for n, s in (("done", BoolMap), ("cancelled", BoolMap), ("result", VMap)):
        run.gset("fut." + n, z3.Const(run.fresh_name("fut_" + n), s))


def done(run, t):
    return z3.Select(run.gget("fut.done"), t)


def cancelled(run, t):
    return z3.Select(run.gget("fut.cancelled"), t)


def result(run, t):
    return z3.Select(run.gget("fut.result"), t)


def setdone(run, t, res=None, canc=False):
    run.gset("fut.done", z3.Store(run.gget("fut.done"), t, True))
    run.gset("fut.cancelled", z3.Store(run.gget("fut.cancelled"), t, canc))
    if res is not None:
        run.gset("fut.result", z3.Store(run.gget("fut.result"), t, run.to_V(res)))


def havoc(run):
    """other code runs: pending futures may get finished, finished ones keep their state; the contract adds what else it knows"""
    olds = {n: run.gget("fut." + n) for n in ("done", "cancelled", "result")}
    init(run)
    return olds


def stays(run, t, olds):
    """a finished future keeps its state"""
    d = z3.Select(olds["done"], t)
    run.assume(z3.Implies(d, z3.And(done(run, t), cancelled(run, t) == z3.Select(olds["cancelled"], t), result(run, t) == z3.Select(olds["result"], t))))


class FutModel:
    is_coroutine = False

    def getattr(self, run, o, name):
        t = o.t
        if name == "done":
            return Native("done", lambda r, a, k: SBool(done(r, t)))
        if name == "cancelled":
            return Native("cancelled", lambda r, a, k: SBool(cancelled(r, t)))
        if name == "set_result":

            def set_result(r, a, k):
                if not r.branch(z3.Not(done(r, t))):
                    r.raise_("InvalidStateError", "already done")
                h = r.hooks.get("set_result")
                if h:
                    h(r, o, a[0])
                setdone(r, t, a[0])

            return Native("set_result", set_result)
        if name == "cancel":

            def cancel(r, a, k):
                if not r.branch(z3.Not(done(r, t))):
                    return False
                setdone(r, t, None, True)
                return True

            return Native("cancel", cancel)
        if name == "result":

            def res(r, a, k):
                if not r.branch(done(r, t)):
                    r.raise_("InvalidStateError", "Result is not set.")
                if r.branch(cancelled(r, t)):
                    r.raise_("CancelledError")
                return r.from_V(result(r, t))

            return Native("result", res)
        if name == "add_done_callback":
            return Native(name, lambda r, a, k: r.event("add_done_callback", o, a[0]))
        if name == "exception":
            return Native(name, lambda r, a, k: None)
        raise Unsupported(f"future.{name}")

    def truth(self, run, o):
        return True

    def await_(self, run, o):
        t = o.t
        if run.branch(done(run, t)):
            if run.branch(cancelled(run, t)):
                run.raise_("CancelledError")
            return run.from_V(result(run, t))
        run.event("suspend", o)
        run.rely()
        k = run.fork("future got its result", "future or waiting task cancelled")
        run.assume(done(run, t))
        if k == 0:
            run.assume(z3.Not(cancelled(run, t)))
            return run.from_V(result(run, t))
        h = run.hooks.get("await_cancelled")
        if h:
            h(run, o)
        run.raise_("CancelledError")


FUT = FutModel()


def new_future(run, name="fut"):
    f = run.fresh(name)
    f.model = FUT
    run.assume(z3.Not(done(run, f.t)))
    run.assume(z3.Not(cancelled(run, f.t)))
    run.assume(z3.Or(V.is_opq(f.t)))
    for s in run.hooks.get("live_futs", lambda r: [])(run):
        run.assume(z3.Not(z3.Contains(s, z3.Unit(f.t))) if s.sort() == SeqV else s != f.t)
    h = run.hooks.get("new_future")
    if h:
        h(run, f)
    run.event("create_future", f)
    return f


def install_loop(run):
    run.hooks["loop_create_future"] = lambda r, self, a, k: new_future(r)
    run.hooks.setdefault("loop_running", True)


def fut_elem(run, t):
    t = z3.simplify(t)
    return SV(t, FUT)


def seq_list(run, name, kind="list", elem=fut_elem, seq=None):
    l = run.new(ListObj(seq=run.fresh(name, "seq") if seq is None else seq, kind=kind, elem=elem))
    return l


def contains(s, t):
    return z3.Contains(s, z3.Unit(t))


def lseq(run, l):
    return run.seq_of(l)
