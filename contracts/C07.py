"""PrioritySemaphore: acquire (at any priority) / release from an arbitrary reachable state.

State: value; a heap of per-priority managers, registered by priority; per manager a deque of waiters; the list of all queued waiters.
A wake-up hands the permit over directly (value is decremented for the waiter), so
  value + holders + grants == capacity, and value > 0 only when no live waiter is queued.
p stands for any waiter, m0 for any manager, k0 for any priority; mgr(w) is the manager in whose queue w was put (ghost), prio(m) its priority."""
from .futures import *
from .maps import *
from .objview import *

M = "a_sync.primitives.locks.prio_semaphore:"
Q, QM = M + "PrioritySemaphore", M + "_PrioritySemaphoreContextManager"
A, AM = M + "_AbstractPrioritySemaphore", M + "_AbstractPrioritySemaphoreContextManager"
prio = z3.Function("priority_of_manager", V, V)
mgr = z3.Function("manager_of_waiter", V, V)
NOKEY = V.none
WAITERS, VALUE = "_Semaphore__waiters", "_Semaphore__value"


def pi(m):
    return V.i(prio(m))


class Prio(Contract):
    functions = [A + "." + m for m in ("acquire", "__aenter__", "__aexit__", "_c_wake_up_next")] + [Q + "." + m for m in ("__init__", "__getitem__", "c_getitem")] + [
        AM + "." + m for m in ("acquire", "c_acquire", "__acquire", "release", "c_release")] + ["a_sync.primitives.locks.semaphore:Semaphore." + m for m in ("release", "c_release", "decorate", "__aenter__", "__aexit__", "__len__")]
    assumes = (
        "asyncio futures: ghost maps done/cancelled/result; a task whose awaited future is done or cancelled resumes; a task cancelled while it waits has its future done",
        "heapq: heappop removes a least element", "dict, collections.deque, list.remove", "release() is called by holders only", "libc malloc/strcpy; logging",
        "priorities are Python ints that fit a C int",
    )

    @property
    def summaries(self):
        d = {"new:" + QM: self.new_manager}
        if self.modular:
            d[A + "._c_wake_up_next"] = self.wake
            d[A + "._wake_up_next"] = self.wake
        return d

    modular = True

    def new_manager(self, run, f, args, kwargs):
        m = SV(run.fresh("manager").t, self.model)
        t = m.t
        run.assume(V.is_opq(t))
        for x in (self.m0, mgr(self.p)) + tuple(self.more_managers):
            run.assume(x != t)
        for k in self.keys(run):
            run.assume(z3.Implies(self.cms.H(k), self.cms.G(k) != t))
        run.assume(self.heap.C(t) == 0)
        run.prove(args[0] is self.sem, "a manager belongs to its semaphore")
        run.assume(prio(t) == run.to_V(args[1]))
        run.assume(z3.Not(z3.And(z3.Select(run.gget("wq"), self.p), mgr(self.p) == t)))
        run.gset("wq.len", z3.Store(run.gget("wq.len"), t, 0))
        return m

    def setup(self, run):
        install_loop(run)
        init(run)
        self.model = ObjModel(QM, {
            WAITERS: lambda r, o: OrdQueue("wq", o.t, fut_elem, mgr),
            "_priority": lambda r, o: SInt(pi(o.t)),
            "_parent": lambda r, o: self.sem,
            "_priority_name": lambda r, o: "priority",
            VALUE: lambda r, o: 0,
            "_name": lambda r, o: None,
            "_decorated": lambda r, o: None,
            "_c_ensure_debug_daemon": lambda r, o: Native("_c_ensure_debug_daemon", lambda *a: None),
            "_c_get_loop": lambda r, o: Native("_c_get_loop", lambda r2, a, k: __import__("pyvc.aio", fromlist=["x"]).the_loop(r2)),
        })
        self.sem = s = run.call(run.world.fn(Q), [1], {})
        v, self.cap = run.fresh("value", "int"), z3.Int("capacity")
        run.assume(self.cap < 2**64)
        run.write(s, VALUE, v)
        fresh_queue(run, "wq")
        fresh_queue(run, "pl")
        w = lambda r, t: SV(t, self.model)
        self.cms = SymMap(run, "cms", w)
        self.heap = SymHeap(run, "heap", lambda a, b: pi(a) <= pi(b), w)
        self.heap.on_pop = self.on_pop
        run.write(s, "_context_managers", self.cms)
        run.write(s, WAITERS, self.heap)
        run.write(s, "_potential_lost_waiters", OrdQueue("pl", NOKEY, fut_elem))
        run.gset("H", z3.Int("holders"))
        run.gset("G", z3.Int("grants"))
        self.p, self.m0, self.k0 = z3.Const("some_waiter", V), z3.Const("some_manager", V), z3.Const("some_priority", V)
        for x in (self.p, self.m0):
            run.assume(V.is_opq(x))
        run.assume(V.is_intv(self.k0))
        run.hooks["points"] = lambda r: [self.m0, mgr(self.p)] + list(self.more_managers)
        run.hooks["live_futs"] = lambda r: [self.p]
        run.hooks["set_result"] = self.on_grant
        run.hooks["new_future"] = lambda r, f: r.assume(z3.Not(z3.Or(self.queued(r, f.t), self.listed(r, f.t))))
        run.hooks["queue_pop"] = self.on_queue_pop
        run.hooks["queue_append"] = self.on_append
        run.hooks["queue_points"] = lambda r: [self.p] + ([self.mine] if self.mine is not None else [])
        self.mine, self.prio, self.more_managers = None, None, ()
        run.gset("ingrant", 0)
        self.assume_all(run)
        return s

    def keys(self, run):
        return [self.k0, prio(self.m0), prio(mgr(self.p))]

    # -- the invariant ------------------------------------------------------------
    def val(self, run):
        from pyvc.engine import num_term

        t = num_term(self.sem.fields[VALUE])
        return t if z3.is_expr(t) else z3.IntVal(t)

    def listed(self, run, w):
        return z3.Select(run.gget("pl"), w)

    def queued(self, run, w):
        return z3.Select(run.gget("wq"), w)

    def pos(self, run, w):
        return z3.Select(run.gget("wq.pos"), w)

    def qlen(self, run, m):
        return z3.Select(run.gget("wq.len"), m)

    def pending(self, run, w):
        return z3.And(self.queued(run, w), z3.Not(done(run, w)))

    def at_w(self, run, w):
        """structure at a waiter"""
        m = mgr(w)
        return [
            ("queued waiters are listed", z3.Implies(self.queued(run, w), self.listed(run, w))),
            ("listed waiters are queued", z3.Implies(self.listed(run, w), self.queued(run, w))),
            ("the manager of a live waiter is in the heap", z3.Implies(self.pending(run, w), self.heap.C(m) > 0)),
            ("cancelled futures are done", z3.Implies(cancelled(run, w), done(run, w))),
        ]

    def at_m(self, run, m):
        """structure at a manager"""
        h, c = self.heap, self.cms
        return [
            ("a manager in the heap is the registered one of its priority", z3.Implies(h.C(m) > 0, z3.And(c.H(prio(m)), c.G(prio(m)) == m))),
            ("heap holds a manager at most once", z3.And(h.C(m) >= 0, h.C(m) <= 1)),
            ("managers", z3.Implies(h.C(m) > 0, z3.And(V.is_intv(prio(m)), pi(m) >= -(2**31), pi(m) < 2**31, V.is_opq(m)))),
        ]

    def at_k(self, run, k):
        c, h = self.cms, self.heap
        return [("a registered manager is in the heap under its priority", z3.Implies(c.H(k), z3.And(h.C(c.G(k)) == 1, prio(c.G(k)) == k, V.is_opq(c.G(k)))))]

    def counts(self, run):
        v, H, G = self.val(run), run.gget("H"), run.gget("G")
        yield "permits are conserved (value + holders + grants == capacity)", v + H + G == self.cap
        yield "never more holders than permits", z3.And(v >= 0, H >= 0, G >= 0)
        yield "a permit is free only if no live waiter is queued", z3.Implies(v > 0, z3.Not(self.pending(run, self.p)))

    def structure(self, run):
        yield from self.at_w(run, self.p)
        yield from self.at_m(run, self.m0)
        yield from self.at_m(run, mgr(self.p))
        yield from self.at_k(run, self.k0)

    def assume_all(self, run):
        for _, t in [*self.counts(run), *self.structure(run)]:
            run.assume(t)
        if self.mine is not None:
            for _, t in [*self.at_w(run, self.mine), *self.at_m(run, mgr(self.mine))]:
                run.assume(t)
            run.assume(z3.Implies(self.val(run) > 0, z3.Not(self.pending(run, self.mine))))
            run.assume(z3.Implies(z3.And(done(run, self.mine), z3.Not(cancelled(run, self.mine))), run.gget("G") > 0))

    def prove_inv(self, run, when):
        for n, t in [*self.counts(run), *self.structure(run)]:
            run.prove(t, f"{when}: {n}")

    # -- wake-up ---------------------------------------------------------------------
    def on_pop(self, run, x):
        instantiate(run, lambda m: z3.And([t for _, t in self.at_m(run, m)]), self.m0, x)
        self.more_managers = self.more_managers + (x,)

    def on_append(self, run, q, x, left):
        if q.owner is None:
            return
        run.assume(mgr(x) == q.key)  # definition of the ghost mgr
        run.prove(self.heap.C(q.key) == 1, "a waiter queues up at a registered manager")
        run.prove(not left, "a waiter queues up behind all others of its priority")
        if self.prio is not None:
            run.prove(pi(q.key) == self.prio, "a waiter queues up at the priority it asked for")

    def on_queue_pop(self, run, q, x):
        for i in range(len(self.at_w(run, x))):
            instantiate(run, lambda w: self.at_w(run, w)[i][1], self.p, x)
        instantiate(run, lambda w: z3.Implies(self.queued(run, w), z3.Select(self.wq0, w)), self.p, x)

    def on_grant(self, run, f, v):
        run.gset("G", run.gget("G") + 1)
        run.event("grant", f)
        run.cover("granted")
        p, f = self.p, f.t
        live = z3.And(z3.Not(done(run, p)), p != f, z3.Select(self.wq0, p))
        run.prove(z3.Select(self.wq0, f), "the waiter granted a permit was queued")
        run.prove(z3.Implies(live, z3.Or(pi(mgr(f)) < pi(mgr(p)), z3.And(mgr(p) == mgr(f), z3.Select(self.pos0, f) < z3.Select(self.pos0, p)))), "the permit goes to a waiter of the best priority, the longest waiting one of its priority")

    def snapshot(self, run):
        """state at the beginning of an operation"""
        self.wq0, self.pos0, self.len0 = run.gget("wq"), run.gget("wq.pos"), run.gget("wq.len")
        self.done0, self.canc0 = run.gget("fut.done"), run.gget("fut.cancelled")

    def wake(self, run, f, args, kwargs):
        """_c_wake_up_next() by its contract (WakeUp below): grants one permit to the best live waiter, or nobody waits; the structure stays"""
        run.prove(self.val(run) >= 1, "a wake-up is for a free permit")
        for n, t in self.structure(run):
            run.prove(t, "before a wake-up: " + n)
        pend, d0, c0, q0, P0 = self.pending(run, self.p), run.gget("fut.done"), run.gget("fut.cancelled"), run.gget("wq"), run.gget("wq.pos")
        self.cms.havoc(run)
        self.heap.havoc(run)
        fresh_queue(run, "wq")
        fresh_queue(run, "pl")
        if run.fork("somebody waits", "nobody waits") == 0:
            g = run.fresh("granted").t
            run.assume(z3.And(V.is_opq(g), z3.Select(q0, g), z3.Not(z3.Select(d0, g))))
            setdone(run, g, None)
            run.write(self.sem, VALUE, SInt(self.val(run) - 1))
            run.gset("G", run.gget("G") + 1)
            run.event("grant", SV(g, FUT))
            run.assume(z3.Implies(z3.And(pend, self.p != g), self.pending(run, self.p)))
        else:
            run.assume(z3.Not(pend))
        run.assume(z3.Implies(self.queued(run, self.p), z3.Select(q0, self.p)))
        for n, t in self.structure(run):
            run.assume(t)

    def invariants(self, run, loop_id, st, fr, cur):
        if not hasattr(self, "wq0"):
            return
        p, m0 = self.p, self.m0
        lm = fr.env.vars.get("manager")
        inner = isinstance(lm, SV) and any(lm.t.eq(x) for x in self.more_managers)
        for n, t in self.structure(run):
            yield n, (lambda t: lambda: t)(t)
        yield "a live waiter stays queued", lambda: z3.Implies(z3.And(z3.Select(self.wq0, p), z3.Not(done(run, p))), self.queued(run, p))
        yield "nobody joins", lambda: z3.Implies(self.queued(run, p), z3.Select(self.wq0, p))
        yield "positions", lambda: run.gget("wq.pos") == self.pos0
        if inner:
            m = lm.t
            yield "the popped manager is registered", lambda: z3.And(self.cms.H(prio(m)), self.cms.G(prio(m)) == m, self.heap.C(m) == 0)
            yield "live waiters of other managers", lambda: z3.Implies(z3.And(self.pending(run, p), mgr(p) != m), self.heap.C(mgr(p)) > 0)
            yield "the popped manager is the best", lambda: z3.Implies(z3.And(self.pending(run, p), mgr(p) != m), pi(m) < pi(mgr(p)))
            yield "the other registered managers are in the heap", lambda: z3.Implies(z3.And(self.cms.H(self.k0), self.k0 != prio(m)), z3.And(self.heap.C(self.cms.G(self.k0)) == 1, prio(self.cms.G(self.k0)) == self.k0))
            sl = fr.env.vars.get("start_len")
            if isinstance(sl, SInt):
                yield "its queue does not grow", lambda: self.qlen(run, m) <= sl.t

    # -- environment ----------------------------------------------------------------
    def rely(self, run):
        if self.mine is None:
            f = next((e[1] for e in reversed(run.trace) if e[0] == "suspend"), None)
            if f is not None:
                self.mine = f.t
        f = self.mine
        if f is not None:
            self.prove_inv(run, "while waiting")
            for n, t in [*self.at_w(run, f), *self.at_m(run, mgr(f))]:
                run.prove(t, "while waiting, itself: " + n)
            run.prove(z3.Implies(self.val(run) > 0, z3.Not(self.pending(run, f))), "while waiting: no permit is free")
        olds = havoc(run)
        for w in [self.p] + ([f] if f is not None else []):
            stays(run, w, olds)
        run.write(self.sem, VALUE, run.fresh("value", "int"))
        run.gset("H", z3.Int(run.fresh_name("holders")))
        run.gset("G", z3.Int(run.fresh_name("grants")))
        fresh_queue(run, "wq")
        fresh_queue(run, "pl")
        self.cms.havoc(run)
        self.heap.havoc(run)
        self.assume_all(run)
        if f is not None:
            run.assume(z3.Or(done(run, f), self.queued(run, f)))
        self.snapshot(run)


class Init(Prio):
    name = "a new priority semaphore has its value free and nobody waits"
    must_cover = ("made",)

    def run(self, run):
        install_loop(run)
        init(run)
        n = run.fresh("n", "int")
        out = outcome_of(run, lambda: run.call(run.world.fn(Q), [n], {}))
        if out[0] == "exc":
            run.prove(z3.Or(n.t < 0, n.t >= 2**63), "only negative or huge values are refused")
            return
        run.cover("made")
        self.sem = s = out[1]
        run.prove(self.val(run) == n.t, "all permits are free")
        for f in ("_context_managers", WAITERS, "_potential_lost_waiters"):
            t = run.truth_term(s.fields[f])
            run.prove(t is False or is_false(zbool(t)), "nobody waits: " + f)


class Managers(Prio):
    name = "one manager per priority, ordered by priority, no priority is the top priority"
    summaries = {}
    must_cover = ("managers",)

    def run(self, run):
        install_loop(run)
        init(run)
        s = run.call(run.world.fn(Q), [1], {})
        run.cover("managers")
        s1 = run.call(run.world.fn(Q), [1], {})
        none = run.call(run.getattr_(s1, "__getitem__"), [None], {})
        top = run.call(run.getattr_(s1, "__getitem__"), [s1.fields["_top_priority"]], {})
        run.prove(none is top, "no priority is the top priority")
        k = run.fresh("k", "int")
        run.assume(z3.And(k.t >= -(2**31), k.t < 2**31))
        m = run.call(run.getattr_(s, "__getitem__"), [k], {})
        run.prove(run.to_V(run.getattr_(m, "_priority")) == V.intv(k.t), "a manager has its priority")
        run.prove(run.getattr_(m, "_parent") is s, "a manager has its parent")
        t = run.truth_term(run.getattr_(m, WAITERS))
        run.prove(t is False or is_false(zbool(t)), "a new manager has no waiters")
        run.prove(run.call(run.getattr_(s, "__getitem__"), [k], {}) is m, "one manager per priority")
        k2 = run.fresh("k2", "int")
        run.assume(z3.And(k2.t >= -(2**31), k2.t < 2**31))
        m2 = run.call(run.world.fn(QM), [s, k2], {})
        lt = run.truth_term(run.call(run.getattr_(m, "__lt__"), [m2], {}))
        run.prove(zbool(lt) == (k.t < k2.t), "managers are ordered by priority")


class Acquire(Prio):
    must_cover = ("free", "waited", "cancelled", "cancelled with a grant")

    def __init__(self, how):
        self.how = how
        self.name = f"{how}: never over-admits, never loses a permit, queues behind its equals"

    def run(self, run):
        s = self.setup(run)
        if "[" in self.how:
            k = run.fresh("priority", "int")
            run.assume(z3.And(k.t >= -(2**31), k.t < 2**31))
            self.prio = k.t
            self.extra_key = V.intv(k.t)
            for _, t in self.at_k(run, V.intv(k.t)):
                run.assume(t)
            o = run.call(run.getattr_(s, "__getitem__"), [k], {})
            # the manager may be used much later
            self.rely(run)
        else:
            o = s
        if self.how.startswith("async"):
            coro = run.call(run.getattr_(o, "__aenter__"), [], {})
        else:
            coro = run.call(run.getattr_(o, "acquire"), [], {})
            self.rely(run)
        self.snapshot(run)
        if self.prio is not None:
            for _, t in self.at_k(run, V.intv(self.prio)):
                run.assume(t)
        else:
            for _, t in self.at_k(run, V.intv(-1)):
                run.assume(t)
        pend0 = self.pending(run, self.p)
        out = outcome_of(run, lambda: run.await_(coro))
        if self.mine is None:
            run.cover("free")
            run.prove(out[0] == "ret", "acquire without waiting succeeds")
            run.prove(z3.Not(pend0), "acquire without waiting overtakes no live waiter")
            run.gset("H", run.gget("H") + 1)
        else:
            f = self.mine
            if out[0] == "ret":
                run.cover("waited")
                run.prove(z3.And(done(run, f), z3.Not(cancelled(run, f))), "after waiting: it was granted a permit")
                run.gset("G", run.gget("G") - 1)
                run.gset("H", run.gget("H") + 1)
            else:
                run.cover("cancelled")
                prove_exc(run, out, "CancelledError", "fails only when cancelled")
                if run.branch(z3.And(done(run, f), z3.Not(cancelled(run, f)))):
                    run.cover("cancelled with a grant")
                    run.gset("G", run.gget("G") - 1)
        self.prove_inv(run, "after acquire")


class Release(Prio):
    must_cover = ("handed over", "freed")

    def __init__(self, how):
        self.how = how
        self.name = f"{how}: the permit goes to the longest waiting live waiter of the best priority, or is free"

    def run(self, run):
        s = self.setup(run)
        run.assume(run.gget("H") >= 1)
        o = s
        if "[" in self.how:
            k = run.fresh("priority", "int")
            run.assume(z3.And(k.t >= -(2**31), k.t < 2**31))
            for _, t in self.at_k(run, V.intv(k.t)):
                run.assume(t)
            o = run.call(run.getattr_(s, "__getitem__"), [k], {})
            self.rely(run)
            run.assume(run.gget("H") >= 1)
        elif "aexit" in self.how:
            for _, t in self.at_k(run, V.intv(-1)):
                run.assume(t)
        self.snapshot(run)
        pend0, v0 = self.pending(run, self.p), self.val(run)
        run.gset("H", run.gget("H") - 1)
        if "aexit" in self.how:
            out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(o, "__aexit__"), [None, None, None], {})))
        else:
            out = outcome_of(run, lambda: run.call(run.getattr_(o, "release"), [], {}))
        run.prove(out[0] == "ret", "release() does not fail")
        self.prove_inv(run, "after release")
        gs = [e for e in run.trace if e[0] == "grant"]
        if gs:
            run.cover("handed over")
            run.prove(len(gs) == 1, "one permit, one grant")
            run.prove(self.val(run) == v0, "the permit is handed over")
        else:
            run.cover("freed")
            run.prove(z3.Not(pend0), "freed only when no live waiter is queued")
            run.prove(self.val(run) == v0 + 1, "the permit is free again")


class WakeUp(Prio):
    name = "_c_wake_up_next(): hands one permit to the longest waiting live waiter of the best priority; does nothing only if nobody waits"
    must_cover = ("granted", "nobody")
    modular = False

    def run(self, run):
        s = self.setup(run)
        # a permit was just freed: somebody may wait although a permit is free
        run.write(s, VALUE, run.fresh("free", "int"))
        run.assume(self.val(run) >= 1)
        self.snapshot(run)
        p, v0, G0, H0 = self.p, self.val(run), run.gget("G"), run.gget("H")
        pend0 = self.pending(run, p)
        out = outcome_of(run, lambda: run.call(run.getattr_(s, "_c_wake_up_next"), [], {}))
        run.prove(out[0] == "ret", "a wake-up does not fail")
        for n, t in self.structure(run):
            run.prove(t, "after a wake-up: " + n)
        gs = [e[1].t for e in run.trace if e[0] == "grant"]
        run.prove(run.gget("H") == H0, "a wake-up admits nobody itself")
        run.prove(z3.Implies(self.queued(run, p), z3.Select(self.wq0, p)), "nobody joins the queue")
        if gs:
            run.prove(len(gs) == 1, "one permit, one grant")
            g = gs[0]
            run.prove(z3.And(self.val(run) == v0 - 1, run.gget("G") == G0 + 1), "the permit is handed over")
            run.prove(z3.And(z3.Not(z3.Select(self.done0, g)), z3.Select(self.wq0, g)), "it goes to a live waiter")
            run.prove(z3.Implies(z3.And(pend0, p != g), self.pending(run, p)), "the other live waiters stay queued")
            run.prove(z3.Implies(p != g, z3.And(done(run, p) == z3.Select(self.done0, p), cancelled(run, p) == z3.Select(self.canc0, p))), "the other waiters are not touched")
        else:
            run.cover("nobody")
            run.prove(z3.Not(pend0), "does nothing only if no live waiter is queued")
            run.prove(z3.And(self.val(run) == v0, run.gget("G") == G0), "the permit stays free")
            run.prove(z3.And(done(run, p) == z3.Select(self.done0, p), cancelled(run, p) == z3.Select(self.canc0, p)), "the waiters are not touched")


def contracts():
    return [Init(), Managers(), WakeUp()] + [Acquire(h) for h in ("acquire()", "async with", "[priority].acquire()", "async with [priority]")] + [Release(h) for h in ("release()", "__aexit__", "[priority].release()", "[priority].__aexit__")]
