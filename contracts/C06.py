"""Semaphore: acquire / release / locked / decorate from an arbitrary reachable state (any value, any queue, any number of holders).

Ghost counters: H holders (acquired, not released), G grants (waiters whose future got its result but whose task has not resumed yet).
Invariant:  value + H + G == capacity;  value >= 0, H >= 0, G >= 0;  a live pending waiter and value > 0  =>  G > 0 (somebody is about to
resume, and whoever resumes passes the spare permit on).  p stands for any waiter."""
from .futures import *

Q = "a_sync.primitives.locks.semaphore:Semaphore"


class Sem(Contract):
    functions = [Q + "." + m for m in ("__init__", "acquire", "c_acquire", "__acquire", "release", "c_release", "locked", "c_locked", "_wake_up_next", "_c_wake_up_next", "__aenter__", "__aexit__", "decorate")]
    assumes = (
        "asyncio futures: ghost maps done/cancelled/result; a task whose awaited future is done or cancelled resumes; a task cancelled while it waits has its future done",
        "collections.deque (append, remove, iteration)", "release() is called by holders only", "libc malloc/strcpy; logging",
    )
    field_value, field_waiters = "_Semaphore__value", "_Semaphore__waiters"

    def setup(self, run):
        install_loop(run)
        init(run)
        s = run.call(run.world.fn(Q), [], {})
        self.s = s
        v, self.cap = run.fresh("value", "int"), z3.Int("capacity")
        run.assume(self.cap < 2**64)
        run.write(s, self.field_value, v)
        self.W = run.fresh("waiters", "seq")
        run.write(s, self.field_waiters, seq_list(run, "", "deque", seq=self.W))
        run.gset("H", z3.Int("holders"))
        run.gset("G", z3.Int("grants"))
        self.p = z3.Const("some_waiter", V)
        run.hooks["live_futs"] = lambda r: [lseq(r, r.getattr_(s, self.field_waiters)), self.p]
        run.hooks["set_result"] = self.on_grant
        self.mine = None
        self.assume_inv(run)
        return s

    # -- state -----------------------------------------------------------------
    def val(self, run):
        from pyvc.engine import num_term

        t = num_term(self.s.fields[self.field_value])
        return t if z3.is_expr(t) else z3.IntVal(t)

    def wseq(self, run):
        return lseq(run, self.s.fields[self.field_waiters])

    def pending(self, run, f):
        return z3.And(contains(self.wseq(run), f), z3.Not(done(run, f)))

    def inv(self, run):
        v, H, G = self.val(run), run.gget("H"), run.gget("G")
        yield "permits are conserved (value + holders + grants == capacity)", v + H + G == self.cap
        yield "never more holders than permits", z3.And(v >= 0, H >= 0, G >= 0)
        yield "a free permit is being handed out while a live waiter is queued", z3.Implies(z3.And(v > 0, self.pending(run, self.p)), G > 0)
        yield "cancelled futures are done", z3.Implies(cancelled(run, self.p), done(run, self.p))

    def assume_inv(self, run):
        for _, t in self.inv(run):
            run.assume(t)
        self.entry = (self.val(run) > 0, self.wseq(run), run.gget("fut.done"), run.gget("fut.cancelled"), run.gget("G") > 0)
        if self.mine is not None:
            f = self.mine.t
            run.assume(z3.Implies(z3.And(self.val(run) > 0, self.pending(run, f)), run.gget("G") > 0))
            run.assume(z3.Implies(z3.And(done(run, f), z3.Not(cancelled(run, f))), run.gget("G") > 0))

    def prove_inv(self, run, when):
        for n, t in self.inv(run):
            run.prove(t, f"{when}: {n}")

    def on_grant(self, run, f, v):
        """a future gets its result: the permit goes to it"""
        run.gset("G", run.gget("G") + 1)
        run.event("grant", f)
        p = self.p
        for ps in [self.pos(run, f)]:
            if ps is not None:
                run.prove(z3.Implies(contains(ps, p), done(run, p)), "the permit goes to the longest waiting live waiter")

    def pos(self, run, f):
        """the part of the queue before f (f is the element of the loop that is being run)"""
        return getattr(self, "_prefix", None)

    def iter_begin(self, run, loop_id, st, fr, cur, x):
        self._prefix = getattr(cur, "P", None)
        if self._prefix is not None and isinstance(x, SV) and hasattr(self, "entry"):
            # the invariant at the waiter x, in the state in which the invariant was known to hold last
            free, W, d, c, g = self.entry
            t = x.t
            if W.eq(cur.S) or run.holds(W == cur.S):  # hence x in W
                run.assume(z3.Implies(z3.And(free, z3.Not(z3.Select(d, t))), g))
                run.assume(z3.Implies(z3.And(z3.Select(d, t), z3.Not(z3.Select(c, t))), g))

    def iter_end(self, run, *a):
        self._prefix = None

    def invariants(self, run, loop_id, st, fr, cur):
        P = getattr(cur, "P", None)
        if P is None or not hasattr(self, "p"):
            return
        p = self.p
        yield "passed waiters are done", lambda: z3.Implies(contains(P, p), done(run, p))
        yield "passed waiters are cancelled", lambda: z3.Implies(contains(P, p), cancelled(run, p))

    # -- environment --------------------------------------------------------------
    def rely(self, run):
        f = self.mine
        if f is None:
            f = self.mine = next((e[1] for e in reversed(run.trace) if e[0] == "suspend"), None)
            if f is None:
                # between the creation of the coroutine and its first step
                self.havoc(run, None)
                return
            run.prove(self.wseq(run) == z3.Concat(self.W, z3.Unit(f.t)), "a blocked acquirer queues up behind all others")
            self.prove_inv(run, "while waiting")
            run.prove(z3.Implies(z3.And(self.val(run) > 0, self.pending(run, f.t)), run.gget("G") > 0), "while waiting: its own turn will come")
        self.havoc(run, f)

    def havoc(self, run, f):
        olds = havoc(run)
        if f is not None:
            stays(run, f.t, olds)
        stays(run, self.p, olds)
        run.write(self.s, self.field_value, run.fresh("value", "int"))
        run.gset("H", z3.Int(run.fresh_name("holders")))
        run.gset("G", z3.Int(run.fresh_name("grants")))
        A, B = run.fresh("w_before", "seq"), run.fresh("w_after", "seq")
        if f is not None:
            run.assume(z3.Not(contains(A, f.t)))
            run.assume(z3.Not(contains(B, f.t)))
            seq = z3.Concat(A, z3.Unit(f.t), B)
        else:
            seq = A
        self.W = seq
        self.AB = (A, B)
        self.s.fields[self.field_waiters].setloc("#", (None, seq))
        self.assume_inv(run)

    # -- shared ------------------------------------------------------------------
    def acquire(self, run, coro, label="acquire"):
        """await an acquire coroutine; accounts for the permit; returns the outcome"""
        v0, G0, W0 = self.val(run), run.gget("G"), self.W
        out = outcome_of(run, lambda: run.await_(coro))
        if self.mine is None:
            run.cover("free")
            run.prove(out[0] == "ret", f"{label} without waiting succeeds")
            run.prove(z3.Implies(contains(W0, self.p), done(run, self.p)), f"{label} without waiting overtakes no live waiter")
            run.gset("H", run.gget("H") + 1)
            return out
        f = self.mine.t
        if out[0] == "ret":
            run.cover("waited")
            run.prove(z3.And(done(run, f), z3.Not(cancelled(run, f))), f"{label} after waiting: it was granted a permit")
            run.gset("G", run.gget("G") - 1)
            run.gset("H", run.gget("H") + 1)
        else:
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", f"{label} fails only when cancelled")
            granted = z3.And(done(run, f), z3.Not(cancelled(run, f)))
            if run.branch(granted):
                run.cover("cancelled with a grant")
                run.gset("G", run.gget("G") - 1)
        run.prove(self.wseq(run) == z3.Concat(*self.AB), f"{label}: it leaves the queue, nobody else does")
        return out


class Init(Sem):
    name = "a new semaphore has its initial value and no waiters"
    must_cover = ("made", "refused")

    def run(self, run):
        install_loop(run)
        init(run)
        n = run.fresh("n", "int")
        out = outcome_of(run, lambda: run.call(run.world.fn(Q), [], {"value": n}))
        if out[0] == "exc":
            run.cover("refused")
            run.prove(z3.Or(n.t < 0, n.t >= 2**64), "only negative or huge values are refused")
            return
        run.cover("made")
        self.s = out[1]
        run.prove(self.val(run) == n.t, "all permits are free")
        run.prove(self.wseq(run) == z3.Empty(SeqV), "nobody waits")


class Acquire(Sem):
    must_cover = ("free", "waited", "cancelled", "cancelled with a grant")

    def __init__(self, how):
        self.how = how
        self.name = f"{how}: never over-admits, never loses a permit, queues in order"

    def run(self, run):
        s = self.setup(run)
        if self.how == "acquire()":
            coro = run.call(run.getattr_(s, "acquire"), [], {})
            v, G, H = self.val(run), run.gget("G"), run.gget("H")
            self.prove_inv(run, "acquire() not awaited yet")
            self.rely(run)
        else:
            coro = run.call(run.getattr_(s, "__aenter__"), [], {})
        out = self.acquire(run, coro)
        self.prove_inv(run, "after acquire")


class Release(Sem):
    name = "release(): hands the permit to the longest waiting live waiter or frees it"
    must_cover = ("granted", "freed")

    def __init__(self, how):
        self.how = how
        self.name += f" [{how}]"

    def run(self, run):
        s = self.setup(run)
        run.assume(run.gget("H") >= 1)
        v0, W0 = self.val(run), self.W
        if self.how == "__aexit__":
            out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(s, "__aexit__"), [None, None, None], {})))
        else:
            out = outcome_of(run, lambda: run.call(run.getattr_(s, self.how), [], {}))
        run.prove(out[0] == "ret", "release() does not fail")
        if self.how == "__aexit__":
            run.prove(z3.Not(run.truth_term(out[1])) if z3.is_expr(run.truth_term(out[1])) else not run.truth_term(out[1]), "leaving swallows no exception")
        run.gset("H", run.gget("H") - 1)
        self.prove_inv(run, "after release")
        run.prove(self.wseq(run) == W0, "release() leaves the queue to the waiters")
        gs = [e for e in run.trace if e[0] == "grant"]
        if gs:
            run.cover("granted")
            run.prove(len(gs) == 1 , "one permit, one grant")
        else:
            run.cover("freed")
            run.prove(z3.Implies(contains(W0, self.p), done(run, self.p)), "freed only when no live waiter is queued")
            run.prove(self.val(run) == v0 + 1, "the permit is free again")


class Locked(Sem):
    name = "locked() tells whether acquire() would have to wait, and changes nothing"
    must_cover = ("locked", "free")

    def run(self, run):
        s = self.setup(run)
        v0, W0, d0, c0 = self.val(run), self.W, run.gget("fut.done"), run.gget("fut.cancelled")
        out = outcome_of(run, lambda: run.call(run.getattr_(s, "locked"), [], {}))
        run.prove(out[0] == "ret", "locked() does not fail")
        t = zbool(run.truth_term(out[1]))
        run.prove(z3.Implies(z3.Not(t), z3.And(v0 > 0, z3.Implies(contains(W0, self.p), done(run, self.p)))), "not locked: a permit is free and no live waiter is queued")
        run.prove(z3.Implies(v0 == 0, t), "locked when no permit is free")
        run.prove(z3.And(self.val(run) == v0, self.wseq(run) == W0, run.gget("fut.done") == d0, run.gget("fut.cancelled") == c0), "locked() changes nothing")
        run.cover("locked" if run.branch(t) else "free")


class Decorate(Sem):
    """entering and leaving by their contracts (proved above): a permit is taken, or the wait is cancelled; the permit is given back"""

    name = "decorated coroutine function: runs once while holding one permit, released on every exit"
    must_cover = ("returned", "raised", "cancelled")

    @property
    def summaries(self):
        return {Q + ".__aenter__": self.enter, Q + ".__aexit__": self.leave, Q + ".acquire": self.enter, Q + ".c_acquire": self.enter, Q + ".release": self.give_back, Q + ".c_release": self.give_back}

    def enter(self, run, f, a, k):
        def go():
            if run.fork("entered", "cancelled while waiting") == 1:
                run.raise_("CancelledError")
            run.gset("held", run.gget("held") + 1)

        return Coro(go, "enter")

    def leave(self, run, f, a, k):
        return Coro(lambda: self.give_back(run, f, a, k), "leave")

    def give_back(self, run, f, a, k):
        run.gset("held", run.gget("held") - 1)

    def run(self, run):
        s = self.setup(run)
        run.gset("held", 0)

        def outcome(r, fn, args, kwargs):
            r.prove(r.gget("held") == 1, "the body runs while holding exactly one permit")
            if r.fork("body returns", "body raises") == 0:
                v = r.fresh("result")
                r.event("user-ret", fn, v)
                return v
            e = r.fresh_exc("error")
            r.event("user-exc", fn, e)
            raise PyExc(e)

        fn = UserFn("fn", True, outcome)
        fn.no_rely = True
        wrapped = run.call(run.getattr_(s, "decorate"), [fn], {})
        args, kwargs, check_args = sym_call_args(run)
        out0 = outcome_of(run, lambda: run.call(wrapped, args, kwargs))
        run.prove(out0[0] == "ret" and is_awaitable(run, out0[1]), "the decorated function is a coroutine function")
        run.prove(not user_runs(run) and run.gget("held") == 0, "nothing happens before it is awaited")
        out = outcome_of(run, lambda: run.await_(out0[1]))
        us = user_runs(run)
        run.prove(run.gget("held") == 0, "the permit is back on every exit")
        if not us:
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", "the body is skipped only when cancelled while waiting")
            return
        run.prove(len(us) == 1, "the body runs once")
        for u in us[:1]:
            check_args(run, u[2], u[3], "the body gets the caller's arguments")
        uo = user_outcome(run)
        run.cover("returned" if uo[0] == "ret" else "raised")
        prove_outcome(run, out, uo, "the caller gets the body's outcome")


def contracts():
    return [Init(), Acquire("acquire()"), Acquire("async with"), Release("release"), Release("__aexit__"), Locked(), Decorate()]
