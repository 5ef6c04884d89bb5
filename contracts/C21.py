"""Shared futures: shield, awaiting a SmartFuture/SmartTask, the number of waiters and the priority."""
from .maps import *
from .tasks import *
from pyvc.engine import SeqCursor

S_ = "a_sync._smart:"
FUT_METHODS = ("done", "cancelled", "result", "exception", "set_result", "set_exception", "cancel", "add_done_callback", "remove_done_callback", "get_loop")


class FutState:
    """asyncio.Future's part of an object: pending / result / exception / cancelled; callbacks are scheduled, not run, when it finishes"""

    def __init__(self, run):
        self.run = run

    def install(self):
        run = self.run
        run.hooks["super"] = self.sup
        run.hooks["ext_call"] = self.ext
        run.hooks["ext_setattr"] = None
        run.hooks["debug_logs"] = lambda r: False

    def fresh(self, cls, name):
        """a pending one, made by the class itself"""
        run = self.run
        o = run.new(Obj(run.world.fn(S_ + cls)))
        self.reset(o, z3.Const(run.fresh_name(name + "_waiters_has"), HasMap))
        return o

    def reset(self, o, waiters=None):
        run = self.run
        for k, v in (("#state", "pending"), ("#value", None), ("#callbacks", ()), ("_loop", the_loop(run)), ("_asyncio_future_blocking", False)):
            run.write(o, k, v)
        if waiters is not None:
            s = SymSet(run, "waiters")
            s.has = waiters
            run.write(o, "_waiters", s)

    def sup(self, r, s, name, exts):
        if name == "__init__":
            o = s.o
            return Native("Future.__init__", lambda r2, a, k: self.reset(o))
        return UNSET

    def ext(self, r, f, args, kwargs):
        p = f.path if isinstance(f, Ext) else ""
        leaf = p.rpartition(".")[2]
        if p.endswith("WeakSet") or p.endswith("weakref.WeakSet"):
            return r.new(SetObj())
        if p in ("weakref.proxy", "_weakref.proxy"):
            return args[0]
        if leaf == "current_task":
            return self.current
        if leaf in ("ensure_future",):
            return args[0]
        if leaf == "_get_loop":
            return the_loop(r)
        if leaf == "__init__" and args and isinstance(args[0], Obj):
            return self.reset(args[0])
        if leaf in FUT_METHODS and args and isinstance(args[0], Obj) and "#state" in args[0].fields:
            return self.method(r, leaf, args[0], args[1:], kwargs)
        return UNSET

    current = None

    def method(self, r, name, o, a, k):
        st = o.fields["#state"]
        if not isinstance(st, str):
            raise Unsupported("future state")
        if name == "done":
            return st != "pending"
        if name == "cancelled":
            return st == "cancelled"
        if name == "get_loop":
            return o.fields["_loop"]
        if name == "result":
            if st == "pending":
                r.raise_("InvalidStateError")
            if st == "cancelled":
                r.raise_("CancelledError")
            if st == "exc":
                raise PyExc(o.fields["#value"])
            return o.fields["#value"]
        if name == "exception":
            if st == "pending":
                r.raise_("InvalidStateError")
            if st == "cancelled":
                r.raise_("CancelledError")
            return o.fields["#value"] if st == "exc" else None
        if name in ("set_result", "set_exception"):
            if st != "pending":
                r.raise_("InvalidStateError")
            r.write(o, "#state", "ret" if name == "set_result" else "exc")
            r.write(o, "#value", a[0])
            r.event("finished", o)
            return None
        if name == "cancel":
            if st != "pending":
                return False
            r.write(o, "#state", "cancelled")
            r.event("finished", o)
            return True
        if name == "add_done_callback":
            r.write(o, "#callbacks", o.fields["#callbacks"] + (a[0],))
            return None
        if name == "remove_done_callback":
            cbs = o.fields["#callbacks"]
            keep = tuple(c for c in cbs if not (c is a[0] or r.holds(zbool(r.eq(c, a[0])))))
            r.write(o, "#callbacks", keep)
            return len(cbs) - len(keep)
        raise Unsupported(name)

    def finish(self, o, kind):
        """the computation ends"""
        run = self.run
        run.write(o, "#state", kind)
        run.write(o, "#value", run.fresh("value") if kind == "ret" else run.fresh_exc("error") if kind == "exc" else None)

    def fire(self, o):
        """the loop runs the callbacks scheduled when o finished"""
        for c in o.fields["#callbacks"]:
            if isinstance(c, Opaque):
                continue
            self.run.call(c, [o], {})
        self.run.write(o, "#callbacks", ())


class Opaque(Val):
    """somebody else's callback"""

    def __init__(self, n):
        self.n = n


KINDS = ("SmartFuture", "SmartTask")


class Smart(Contract):
    assumes = (
        "asyncio.Future/Task: states, callbacks scheduled when finished (modelled); weak sets keep what is otherwise referenced",
        "asyncio.ensure_future gives a future itself, and a task for a coroutine",
    )

    def setup(self, run):
        self.F = F = FutState(run)
        F.install()
        run.hooks["points"] = lambda r: []
        return F


class ShieldDone(Smart):
    name = "shield of a finished computation is that computation"
    functions = [S_ + "shield"]
    must_cover = ("checked",)

    def run(self, run):
        F = self.setup(run)
        inner = F.fresh(KINDS[run.fork(*KINDS)], "inner")
        F.finish(inner, ("ret", "exc", "cancelled")[run.fork("ret", "exc", "cancelled")])
        st = dict(inner.fields)
        out = outcome_of(run, lambda: run.call(run.world.fn(S_ + "shield"), [inner], {}))
        run.cover("checked")
        prove_outcome(run, out, ("ret", inner), "shield of a finished computation returns it")
        run.prove(inner.fields["#callbacks"] == st["#callbacks"] and inner.fields["#state"] == st["#state"], "and leaves it alone")


class Shield(Smart):
    name = "shield: every waiter gets the computation's outcome; a waiter which leaves takes nothing from it"
    functions = [S_ + "shield", S_ + "create_future", S_ + "SmartFuture.__init__", S_ + "_SmartFutureMixin._self_done_cleanup_callback"]
    must_cover = ("waiting", "left", "got result", "got exception", "got cancelled", "left and finished")

    def run(self, run):
        F = self.setup(run)
        kind = run.fork("SmartFuture", "SmartTask", "plain future")
        inner = F.fresh(KINDS[kind], "inner") if kind < 2 else F.fresh("SmartFuture", "inner")
        if kind == 2:
            inner.fields.pop("_waiters")
            inner.cls = Ext("asyncio.Future", __import__("asyncio").Future)
        before = (Opaque(1),)
        run.write(inner, "#callbacks", before)
        w = inner.fields.get("_waiters")
        h0 = w.has if w is not None else None
        shield = run.world.fn(S_ + "shield")
        # two waiters: what one does must not show at the other
        outers = []
        for i in range(2):
            out = outcome_of(run, lambda: run.call(shield, [inner], {}))
            ok = out[0] == "ret" and isinstance(out[1], Obj) and "#state" in out[1].fields
            run.prove(ok, "shield of a pending computation gives a future")
            if not ok:
                return
            outers.append(out[1])
        a, b = outers
        run.cover("waiting")
        run.prove(a is not inner and b is not inner and a is not b, "every waiter has a future of its own")
        run.prove(a.fields["#state"] == "pending" and b.fields["#state"] == "pending" and inner.fields["#state"] == "pending", "all are pending")
        run.prove(inner.fields["#callbacks"][:1] == before, "others' callbacks stay")
        h1 = w.has if w is not None else None
        x = z3.Const("anyone", V)
        if w is not None:
            A, B = run.to_V(a), run.to_V(b)
            run.prove(z3.And(z3.Select(h1, A), z3.Select(h1, B)), "a waiter counts while it waits")
            run.prove(z3.Implies(z3.And(x != A, x != B), z3.Select(h1, x) == z3.Select(h0, x)), "nobody else's place changes")
        left = run.fork("nobody leaves", "one waiter leaves", "one leaves at the moment the computation ends")
        if left:
            run.call(run.getattr_(a, "cancel"), [], {})
        if left == 1:
            o = outcome_of(run, lambda: F.fire(a))
            run.prove(o[0] == "ret", "leaving does not fail")
            run.cover("left")
            run.prove(inner.fields["#state"] == "pending", "a waiter which leaves does not end the computation")
            run.prove(b.fields["#state"] == "pending", "a waiter which leaves does not end another's waiting")
            run.prove(inner.fields["#callbacks"][:1] == before, "others' callbacks stay")
            if w is not None:
                run.prove(z3.Not(z3.Select(w.has, A)), "a waiter which left does not count")
                run.prove(z3.Implies(x != A, z3.Select(w.has, x) == z3.Select(h1, x)), "nobody else's place changes")
        end = ("ret", "exc", "cancelled")[run.fork("returns", "raises", "is cancelled")]
        F.finish(inner, end)
        val = inner.fields["#value"]
        run.trace.append(("mark",))
        o = outcome_of(run, lambda: F.fire(inner))
        run.prove(o[0] == "ret", "telling the waiters does not fail")
        run.prove(inner.fields["#state"] == end and inner.fields["#value"] is val, "the computation's outcome stays")
        for i, f in enumerate(outers):
            if left and i == 0:
                run.cover("left and finished")
                run.prove(f.fields["#state"] == "cancelled", "a waiter which left stays cancelled")
                continue
            run.cover({"ret": "got result", "exc": "got exception", "cancelled": "got cancelled"}[end])
            run.prove(f.fields["#state"] == end and f.fields["#value"] is val, "every waiter gets exactly the computation's outcome")
        for f in outers:
            if f.fields["#callbacks"]:
                o = outcome_of(run, lambda: F.fire(f))
                run.prove(o[0] == "ret", "the waiters' own callbacks do not fail")
        if w is not None:
            run.prove(z3.And(z3.Not(z3.Select(w.has, A)), z3.Not(z3.Select(w.has, B))) if isinstance(w, SymSet) else True, "nobody counts as a waiter of a finished computation")


class Await(Smart):
    functions = [S_ + "_SmartFutureMixin.__await__", S_ + "_SmartFutureMixin._waiter_done_cleanup_callback"]
    must_cover = ("at once", "suspended", "got result", "got exception", "left")

    def __init__(self, cls):
        self.cls = cls
        self.name = f"awaiting a {cls}: counts as a waiter exactly while it waits, ends with its outcome"

    def run(self, run):
        F = self.setup(run)
        fut = F.fresh(self.cls, "fut")
        task = run.fresh("task")
        task.model = TASK
        init(run)
        F.current = task
        T = task.t
        w = fut.fields["_waiters"]
        g = z3.Const("another_waiter", V)
        run.assume(g != T)
        run.assume(z3.Not(z3.Select(w.has, T)))  # it waits for nothing yet
        done0 = run.fork("pending", "finished") == 1
        if done0:
            F.finish(fut, ("ret", "exc", "cancelled")[run.fork("ret", "exc", "cancelled")])
        h0 = w.has
        gen = run.call(run.getattr_(fut, "__await__"), [], {})
        n = [0]

        def on_yield(v):
            n[0] += 1
            run.cover("suspended")
            run.prove(v is fut, "the task waits for the future itself")
            run.prove(fut.fields["_asyncio_future_blocking"] is True, "in the way tasks expect")
            run.prove(z3.Select(w.has, T), "a task counts as a waiter from when it starts waiting")
            run.prove(z3.Select(w.has, g) == z3.Select(h0, g), "no other waiter's place changes")
            # others come and go
            k = run.fork("finished", "the waiting task is cancelled", "cancelled as the future finishes")
            w.havoc(run)
            if k == 1:
                run.assume(z3.Select(w.has, T))
            if k != 1:
                F.finish(fut, ("ret", "exc", "cancelled")[run.fork("ret", "exc", "cancelled")])
            self.h1 = w.has
            run.write(fut, "_asyncio_future_blocking", False)
            if k:
                self.threw = run.mk_exc("CancelledError")
                raise PyExc(self.threw)
            return None

        self.threw = None
        out = outcome_of(run, lambda: run.run_gen(gen, on_yield))
        if done0:
            run.cover("at once")
            run.prove(n[0] == 0, "a finished future is not waited for")
        else:
            run.prove(n[0] == 1, "a pending future is waited for, once")
            run.prove(z3.Not(z3.Select(w.has, T)), "a task stops counting when it stops waiting, for any reason")
            run.prove(z3.Select(w.has, g) == z3.Select(self.h1, g), "no other waiter's place changes when it stops")
        if self.threw is not None:
            run.cover("left")
            prove_outcome(run, out, ("exc", self.threw), "the waiting task's cancellation is its own")
            return
        st, val = fut.fields["#state"], fut.fields["#value"]
        if st == "cancelled":
            prove_exc(run, out, "CancelledError", "a cancelled future cancels its waiters")
        elif st == "pending":
            run.prove(False, "ends only when the future has finished")
        else:
            run.cover("got result" if st == "ret" else "got exception")
            prove_outcome(run, out, (st, val), "the waiter gets the future's outcome")


class Leaves(Smart):
    """the callback registered at the waiting task"""

    name = "when a waiting task is done it does not count; a finished computation counts nobody and gives its place in a queue back"
    functions = [S_ + "_SmartFutureMixin._waiter_done_cleanup_callback", S_ + "_SmartFutureMixin._self_done_cleanup_callback", S_ + "SmartFuture.__init__", S_ + "SmartTask.__init__"]
    must_cover = ("own entry", "another's entry", "no queue")

    def run(self, run):
        F = self.setup(run)
        run.hooks["points"] = lambda r: []
        cls = KINDS[run.fork(*KINDS)]
        q = None
        key = run.fresh("key")
        if cls == "SmartFuture":
            kw = {}
            if run.fork("no queue", "queue") == 1:
                q = run.new(Obj(Ext("builtins.object", object)))
                m = SymMap(run, "futs")
                run.write(q, "_futs", m)
                kw = {"queue": q, "key": key}
                run.assume(zbool(run.truth_term(key)))
            else:
                kw = {"queue": None}
            fut = run.call(run.world.fn(S_ + cls), [], kw)
        else:
            fut = run.call(run.world.fn(S_ + cls), [run.fresh("coro")], {})
        cbs = fut.fields["#callbacks"]
        run.prove(len(cbs) == 1, "a shared future looks after itself when it finishes")
        run.prove(isinstance(fut.fields["_waiters"], SetObj) and not fut.fields["_waiters"].items, "nobody waits for a new one")
        s = SymSet(run, "waiters")
        run.write(fut, "_waiters", s)
        h0 = s.has
        x = z3.Const("x", V)
        t = run.fresh("task")
        if run.fork("a waiter ends", "it finishes") == 0:
            o = outcome_of(run, lambda: run.call(run.getattr_(fut, "_waiter_done_cleanup_callback"), [t], {}))
            run.prove(o[0] == "ret", "the callback does not fail")
            run.prove(z3.Not(z3.Select(s.has, t.t)), "a task which ended does not count")
            run.prove(z3.Implies(x != t.t, z3.Select(s.has, x) == z3.Select(h0, x)), "others do")
            return
        F.finish(fut, ("ret", "exc", "cancelled")[run.fork("ret", "exc", "cancelled")])
        if q is None:
            run.cover("no queue")
            o = outcome_of(run, lambda: F.fire(fut))
            run.prove(o[0] == "ret", "the callback does not fail")
        else:
            k = run.to_V(key)
            me = run.to_V(fut)
            has0, val0 = m.has, m.val
            own = run.branch(z3.And(z3.Select(has0, k), z3.Select(val0, k) == me))
            run.cover("own entry" if own else "another's entry")
            m.wrap = lambda r, tt: fut if own and r.holds(tt == me) else r.from_V(tt)
            o = outcome_of(run, lambda: F.fire(fut))
            run.prove(o[0] == "ret", "the callback does not fail")
            run.prove(z3.Select(m.has, k) == (False if own else z3.Select(has0, k)), "its own place in the queue is given back, never another's")
            run.prove(z3.Implies(x != k, z3.Select(m.has, x) == z3.Select(has0, x)), "other keys stay")
            run.prove(z3.Implies(z3.Select(m.has, x), z3.Select(m.val, x) == z3.Select(val0, x)), "other futures stay")
        run.prove(z3.Not(z3.Select(s.has, x)) if isinstance(fut.fields["_waiters"], SymSet) else not fut.fields["_waiters"].items, "nobody counts as a waiter of a finished computation")


class Count(Smart):
    name = "the number of waiters grows with every waiter; more waiters come first"
    functions = [S_ + "_SmartFutureMixin.num_waiters", S_ + "SmartFuture.__lt__"]
    must_cover = ("counted", "finished", "compared")

    def run(self, run):
        F = self.setup(run)
        if run.fork("count", "compare") == 1:
            a, b = F.fresh("SmartFuture", "a"), F.fresh("SmartFuture", "b")
            n = []
            for f in (a, b):
                m = z3.Int(run.fresh_name("m"))
                run.assume(m >= 0)
                sub = run.fresh("sub")
                sub.model = SubModel(m)
                k = run.fork("nobody waits", "somebody waits", "finished")
                run.write(f, "_waiters", run.new(SetObj([(True, sub)] if k else [])))
                if k == 2:
                    F.finish(f, "ret")
                n.append(z3.If(m > 0, m, 1) if k == 1 else z3.IntVal(0))
            out = outcome_of(run, lambda: run.call(run.getattr_(a, "__lt__"), [b], {}))
            run.cover("compared")
            run.prove(out[0] == "ret", "comparing does not fail")
            if out[0] == "ret":
                run.prove(zbool(run.truth_term(out[1])) == (n[0] > n[1]), "the one with more waiters comes first")
            return
        fut = F.fresh(KINDS[run.fork(*KINDS)], "fut")
        # three waiters, each of which may be there or not: a task, another task, a shared future which is waited for itself
        t1, t2 = run.fresh("t1"), run.fresh("t2")
        t1.model = t2.model = TASK
        init(run)
        sub = run.fresh("sub")
        m = z3.Int("sub_waiters")
        run.assume(m >= 0)
        sub.model = SubModel(m)
        ps = [run.fork("there", "not there") == 0 for _ in range(3)]
        run.write(fut, "_waiters", run.new(SetObj([(True, w) for p, w in zip(ps, (t1, t2, sub)) if p])))
        if run.fork("pending", "finished") == 1:
            F.finish(fut, "ret")
            run.cover("finished")
            run.prove(run.holds(zbool(run.eq(run.getattr_(fut, "num_waiters"), 0))), "nobody waits for a finished one")
            return
        run.cover("counted")
        n = run.getattr_(fut, "num_waiters")
        want = SInt(z3.IntVal(ps[0] + ps[1]) + (z3.If(m > 0, m, 1) if ps[2] else 0))
        run.prove(zbool(run.eq(n, want)), "the number of waiters is the sum of all live waiters' (a shared future's own waiters count)")


class SubModel(TaskModel):
    def __init__(self, m):
        self.m = m

    def getattr(self, run, o, name):
        if name == "num_waiters":
            return SInt(self.m)
        return super().getattr(run, o, name)


def contracts():
    return [ShieldDone(), Shield(), Await("SmartFuture"), Await("SmartTask"), Leaves(), Count()]
