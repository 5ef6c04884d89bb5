"""ThreadsafeSemaphore: every operation acts on the calling thread's own Semaphore, created with the configured value on first use.

Semaphores are used by their contract (C06).  T is the calling thread, U any other thread; each may or may not have used the semaphore."""
from .common import *

P_ = "a_sync.primitives.locks.semaphore:"
Q = P_ + "ThreadsafeSemaphore"


class SemModel:
    def getattr(self, run, o, name):
        n = name[2:] if name.startswith("c_") else name
        if n == "acquire":
            def go(r):
                r.event("op", "acquire", o)
                if r.fork("admitted", "cancelled while waiting") == 1:
                    r.raise_("CancelledError")
                return True

            return Native(name, lambda r, a, k: Coro(lambda: go(r), "Semaphore.acquire"))
        if n == "__aenter__":
            return Native(name, lambda r, a, k: Coro(lambda: r.await_(r.call(self.getattr(r, o, "acquire"), [], {})) and None, "Semaphore.__aenter__"))
        if n == "__aexit__":
            return Native(name, lambda r, a, k: Coro(lambda: r.event("op", "release", o), "Semaphore.__aexit__"))
        if n == "release":
            return Native(name, lambda r, a, k: r.event("op", "release", o))
        if n == "locked":
            def locked(r, a, k):
                r.event("op", "locked", o)
                return SBool(z3.Function("is_locked", V, z3.BoolSort())(o.t))

            return Native(name, locked)
        if n in ("_value", "value", "_Semaphore__value"):
            return SInt(z3.Function("free_permits", V, z3.IntSort())(o.t))
        raise Unsupported(f"Semaphore.{name}")

    def truth(self, run, o):
        return self.length(run, o) > 0

    def length(self, run, o):
        n = z3.Function("waiters_of", V, z3.IntSort())(o.t)
        run.assume(z3.And(n >= 0, n < 2**60))
        return n


SEM = SemModel()


class Threadsafe(Contract):
    functions = [Q + "." + m for m in ("__init__", "acquire", "c_acquire", "release", "c_release", "locked", "c_locked", "__aenter__", "__aexit__", "c_get_semaphore", "semaphore", "__len__", "__repr__")]
    assumes = ("Semaphore by its contract (C06)", "threading.current_thread() identifies the calling thread", "defaultdict creates a missing value with its factory", "the table is only touched by the calling thread during one operation (CPython dict operations are atomic)")

    @property
    def summaries(self):
        return {"new:" + P_ + "Semaphore": self.new_sem}

    def new_sem(self, run, f, args, kwargs):
        v = args[0] if args else kwargs.get("value", 1)
        s = run.fresh("own_semaphore")
        s.model = SEM
        run.assume(V.is_opq(s.t))
        for o in getattr(self, "olds", ()):
            run.assume(o.t != s.t)
        run.event("new", s, v)
        return s

    def setup(self, run):
        self.n = run.fresh("limit", "int")
        run.assume(z3.And(self.n.t >= 0, self.n.t < 2**62))
        Th = Ext("threading.Thread", __import__("threading").Thread)
        self.T, self.U = run.new(Obj(Th)), run.new(Obj(Th))
        self.cur = self.T
        run.hooks["current_thread"] = lambda r: self.cur
        self.s = s = run.call(run.world.fn(Q), [self.n], {})
        run.prove(not [e for e in run.trace if e[0] == "op"], "construction uses no permit")
        self.tbl = run.getattr_(s, "semaphores")
        self.semT, self.semU = None, None
        self.olds = []
        for i, (k, t) in enumerate((("U", self.U), ("T", self.T))):
            if run.fork(f"thread {k} has not used it", f"thread {k} has used it") == 1:
                o = run.fresh("semaphore_of_" + k)
                o.model = SEM
                run.assume(V.is_opq(o.t))
                if k == "T" and self.semU is not None:
                    run.assume(o.t != self.semU.t)
                run.setitem(self.tbl, t, o)
                setattr(self, "sem" + k, o)
                self.olds.append(o)
        return s

    def own(self, run):
        """the semaphore of the calling thread, afterwards"""
        news = [e for e in run.trace if e[0] == "new"]
        if self.semT is not None:
            run.prove(not news, "a thread keeps its semaphore")
            return self.semT
        run.prove(len(news) == 1, "a thread gets one semaphore of its own")
        if len(news) == 1:
            run.prove(run.eq(news[0][2], self.n), "of the configured value")
            return news[0][1]

    def only_own(self, run, ops, what):
        own = self.own(run)
        got = [e for e in run.trace if e[0] == "op"]
        run.prove([e[1] for e in got] == ops, f"{what}: exactly that operation")
        for e in got:
            if own is not None:
                run.prove(e[2].t == own.t, f"{what}: on the calling thread's semaphore")
        if self.semU is not None:
            run.prove(run.same(run.getitem(self.tbl, self.U), self.semU), f"{what}: other threads keep theirs")
        if own is not None:
            run.prove(run.same(run.getattr_(self.s, "semaphore"), own), "the semaphore property is the calling thread's")


class Op(Threadsafe):
    def __init__(self, how, ops):
        self.how, self.ops = how, ops
        self.name = f"{how}: acts on the calling thread's semaphore only"
        self.must_cover = ("first use", "used before") + (("cancelled",) if ops == ["acquire"] else ())

    def run(self, run):
        s = self.setup(run)
        run.cover("first use" if self.semT is None else "used before")
        args = [None, None, None] if self.how == "__aexit__" else []
        f = run.getattr_(s, self.how)
        if self.ops == ["acquire"] or self.how == "__aexit__":
            out = outcome_of(run, lambda: run.await_(run.call(f, args, {})))
        else:
            out = outcome_of(run, lambda: run.call(f, args, {}))
        self.only_own(run, self.ops, self.how)
        if self.ops == ["acquire"] and out[0] == "exc":
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", "fails only when cancelled")
        else:
            run.prove(out[0] == "ret", f"{self.how} does not fail")
        if self.how == "__aexit__" and out[0] == "ret":
            run.prove(z3.Not(zbool(run.truth_term(out[1]))), "leaving swallows no exception")
        if self.how == "locked" and out[0] == "ret":
            own = self.own(run)
            if own is not None:
                run.prove(zbool(run.truth_term(out[1])) == z3.Function("is_locked", V, z3.BoolSort())(own.t), "locked() tells whether the calling thread's semaphore is")


class Inspect(Threadsafe):
    name = "len and repr work in every state and change nothing"
    must_cover = ("len", "repr")

    def run(self, run):
        s = self.setup(run)
        from pyvc.models import b_len

        out = outcome_of(run, lambda: b_len(run, [s], {}))
        run.prove(out[0] == "ret", "len() does not fail")
        run.cover("len")
        if out[0] == "ret":
            want = z3.IntVal(0)
            for o in (self.semT, self.semU):
                if o is not None:
                    want = want + SEM.length(run, o)
            run.prove(run.eq(out[1], SInt(want)), "len() is the number of waiters of all threads")
        out = outcome_of(run, lambda: run.call(run.getattr_(s, "__repr__"), [], {}))
        run.prove(out[0] == "ret" and isinstance(out[1], (str, SStr)), "repr() gives a string")
        run.cover("repr")
        run.prove(not [e for e in run.trace if e[0] == "op"], "inspection acquires and releases nothing")


class Decorate(Threadsafe):
    name = "a decorated function acquires and releases the semaphore of the thread it runs in"
    must_cover = ("ran",)

    def run(self, run):
        s = self.setup(run)
        fn = UserFn("fn", True, None)
        fn.no_rely = True
        w = run.call(run.getattr_(s, "decorate"), [fn], {})
        out = outcome_of(run, lambda: run.await_(run.call(w, [], {})))
        if user_runs(run):
            run.cover("ran")
            self.only_own(run, ["acquire", "release"], "decorated")
            k = [e[0] for e in run.trace if e[0] in ("op", "user")]
            run.prove(k == ["op", "user", "op"], "the body runs between acquire and release")
        else:
            self.only_own(run, ["acquire"], "decorated, cancelled while waiting")
            prove_exc(run, out, "CancelledError", "skipped only when cancelled while waiting")


def contracts():
    return [Op("acquire", ["acquire"]), Op("__aenter__", ["acquire"]), Op("release", ["release"]), Op("__aexit__", ["release"]), Op("locked", ["locked"]), Inspect(), Decorate()]
