"""CythonEvent: wait / set / clear / is_set from an arbitrary reachable state (any waiters, any futures)."""
from .futures import *

Q = "a_sync.primitives.locks.event:CythonEvent"
FUNCS = [Q + "." + m for m in ("__init__", "wait", "c_wait", "__wait", "set", "c_set", "clear", "c_clear", "is_set")]


class Event(Contract):
    functions = FUNCS
    assumes = (
        "asyncio futures: ghost maps done/cancelled/result (contracts/futures.py); a task cancelled while it waits for a future has that future cancelled",
        "libc malloc/strcpy of the event's name; logging",
    )

    def setup(self, run):
        install_loop(run)
        init(run)
        self.ev = ev = run.call(run.world.fn(Q), [], {})
        self.W = run.fresh("waiters", "seq")
        run.hooks["live_futs"] = lambda r: [lseq(r, r.getattr_(ev, "_waiters"))]
        # initial state
        return ev

    def arbitrary(self, run, ev):
        """any state satisfying the invariant: set => every waiter's future is done"""
        l = seq_list(run, "", seq=self.W)
        run.write(ev, "_waiters", l)
        self.v0 = z3.Bool("is_set")
        run.write(ev, "_value", SBool(self.v0))
        self.g = z3.Const("some_future", V)  # stands for any future: what holds for it holds for all
        self.inv(run, run.assume)
        return l

    def inv(self, run, f):
        ev, g = self.ev, self.g
        f(z3.Implies(z3.And(zbool(run.truth_term(run.getattr_(ev, "_value"))), contains(lseq(run, run.getattr_(ev, "_waiters")), g)), done(run, g)))

    def invariants(self, run, loop_id, st, fr, cur):
        g = getattr(self, "g", None)
        if g is None or not isinstance(cur, SeqCursorT):
            return
        d0, c0 = self.d0, self.c0
        yield "g done iff it was or it has been passed", lambda: done(run, g) == z3.Or(z3.Select(d0, g), contains(cur.P, g))
        yield "g cancelled unchanged", lambda: cancelled(run, g) == z3.And(z3.Select(c0, g), z3.Select(d0, g))
        yield "g's state unchanged if done", lambda: z3.Implies(z3.Select(d0, g), z3.And(result(run, g) == z3.Select(self.r0, g)))
        yield "value set", lambda: zbool(run.truth_term(run.getattr_(self.ev, "_value")))


from pyvc.engine import SeqCursor as SeqCursorT


class Init(Event):
    name = "a new event is not set and has no waiters"
    must_cover = ("created",)

    def run(self, run):
        ev = self.setup(run)
        run.cover("created")
        run.prove(run.truth_term(run.call(run.getattr_(ev, "is_set"), [], {})) is False, "a new event is not set")
        w = run.getattr_(ev, "_waiters")
        run.prove(lseq(run, w) == z3.Empty(SeqV), "a new event has no waiters")


class Set(Event):
    name = "set(): every waiter is woken, nothing else changes"
    must_cover = ("was unset", "was set")

    def run(self, run):
        ev = self.setup(run)
        w = self.arbitrary(run, ev)
        g = self.g
        # cancelled implies done for every future
        run.assume(z3.Implies(cancelled(run, g), done(run, g)))
        self.d0, self.c0, self.r0 = run.gget("fut.done"), run.gget("fut.cancelled"), run.gget("fut.result")
        run.hooks["set_result"] = lambda r, f, v: r.prove(contains(self.W, f.t), "set() finishes only futures of waiters")
        out = outcome_of(run, lambda: run.call(run.getattr_(ev, "set"), [], {}))
        run.prove(out[0] == "ret", "set() does not fail")
        run.prove(zbool(run.truth_term(run.getattr_(ev, "_value"))), "the event is set afterwards")
        run.prove(lseq(run, run.getattr_(ev, "_waiters")) == self.W, "set() leaves the waiters to themselves")
        run.prove(z3.Implies(contains(self.W, g), done(run, g)), "every waiter's future is done after set()")
        run.prove(z3.Implies(z3.Not(contains(self.W, g)), done(run, g) == z3.Select(self.d0, g)), "no other future is touched")
        run.prove(z3.Implies(z3.Select(self.d0, g), z3.And(cancelled(run, g) == z3.Select(self.c0, g), result(run, g) == z3.Select(self.r0, g))), "a future which was done (a cancelled waiter's, say) is left as it was")
        run.prove(z3.Implies(z3.Not(z3.Select(self.d0, g)), z3.Not(cancelled(run, g))), "no waiter is cancelled")
        self.inv(run, lambda t: run.prove(t, "invariant: set => all waiters' futures done"))
        run.cover("was set" if not run.branch(z3.Not(self.v0)) else "was unset")


class Clear(Event):
    name = "clear(): only the flag changes"
    must_cover = ("cleared",)

    def run(self, run):
        ev = self.setup(run)
        self.arbitrary(run, ev)
        d0, r0, c0 = run.gget("fut.done"), run.gget("fut.result"), run.gget("fut.cancelled")
        run.prove(zbool(run.truth_term(run.call(run.getattr_(ev, "is_set"), [], {}))) == self.v0, "is_set() tells the state")
        out = outcome_of(run, lambda: run.call(run.getattr_(ev, "clear"), [], {}))
        run.cover("cleared")
        run.prove(out[0] == "ret", "clear() does not fail")
        run.prove(run.truth_term(run.call(run.getattr_(ev, "is_set"), [], {})) is False, "not set after clear()")
        run.prove(lseq(run, run.getattr_(ev, "_waiters")) == self.W, "clear() keeps the waiters")
        run.prove(z3.And(run.gget("fut.done") == d0, run.gget("fut.result") == r0, run.gget("fut.cancelled") == c0), "clear() touches no future")


class Wait(Event):
    must_cover = ("already set", "had to wait", "resumed", "cancelled")

    def __init__(self):
        self.name = "wait(): returns at once if set, else resumes only by set(); leaves the list of waiters as found, cancelled or not"

    def run(self, run):
        ev = self.setup(run)
        self.arbitrary(run, ev)
        # another waiter g: not disturbed by what this one does
        g = self.g
        self.woke = None

        def await_cancelled(r, o):
            run.cover("cancelled")

        run.hooks["await_cancelled"] = await_cancelled
        out = outcome_of(run, lambda: run.call(run.getattr_(ev, "wait"), [], {}))
        run.prove(out[0] == "ret" and is_awaitable(run, out[1]), "wait() returns an awaitable")
        self.mine = next((e[1] for e in reversed(run.trace) if e[0] == "create_future"), None)
        if self.mine is not None:
            w1 = lseq(run, run.getattr_(ev, "_waiters"))
            run.prove(w1 == z3.Concat(self.W, z3.Unit(self.mine.t)), "a waiter is registered as soon as wait() is called, behind the others")
            run.prove(z3.Not(done(run, self.mine.t)), "its future is pending")
            run.prove(z3.Not(self.v0), "registered only when the event is not set")
        else:
            run.prove(self.v0, "a waiter of an unset event is registered")
        # set() may come between the creation of the awaitable and its first step
        self.rely(run)
        before = len(run.trace)
        out2 = outcome_of(run, lambda: run.await_(out[1]))
        suspended = any(e[0] == "suspend" for e in run.trace[before:])
        if self.mine is None:
            run.cover("already set")
            run.prove(not suspended, "waiting on a set event does not suspend")
            run.prove(out2[0] == "ret" and run.truth_term(out2[1]) is True, "waiting on a set event returns True")
            return
        run.cover("had to wait")
        f = self.mine.t
        if out2[0] == "ret":
            run.cover("resumed")
            run.prove(z3.And(done(run, f), z3.Not(cancelled(run, f))), "resumed => its future was finished, which only set() does")
            run.prove(zbool(run.truth_term(out2[1])), "wait() gives True")
        else:
            prove_exc(run, out2, "CancelledError", "a cancelled wait raises CancelledError")
        w = lseq(run, run.getattr_(ev, "_waiters"))
        run.prove(w == z3.Concat(self.A, self.B), "exactly this waiter leaves the list")
        run.prove(zbool(run.truth_term(run.getattr_(ev, "_value"))) == self.v1, "leaving does not change the event")
        run.prove(z3.Implies(g != f, z3.And(done(run, g) == self.gd, cancelled(run, g) == self.gc)), "leaving touches no other waiter's future")

    def rely(self, run):
        """other tasks: set, clear, wait, leave; this waiter's future stays registered, exactly once"""
        if getattr(self, "mine", None) is None:
            return
        ev, f = self.ev, self.mine.t
        olds = havoc(run)
        stays(run, f, olds)
        self.A, self.B = run.fresh("w_before", "seq"), run.fresh("w_after", "seq")
        run.assume(z3.Not(contains(self.A, f)))
        run.assume(z3.Not(contains(self.B, f)))
        run.getattr_(ev, "_waiters").setloc("#", (None, z3.Concat(self.A, z3.Unit(f), self.B)))
        v = run.fresh("value", "bool")
        run.write(ev, "_value", v)
        self.v1 = v.t
        run.assume(z3.Implies(v.t, done(run, f)))  # the invariant, for this waiter
        self.gd, self.gc = done(run, self.g), cancelled(run, self.g)


def contracts():
    return [Init(), Set(), Clear(), Wait()]
