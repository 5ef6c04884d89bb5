"""Cached properties: one successful computation per instance, however many readers.

State of an instance: cache and lock (the dicts of async_property's per-instance state, any contents).  Ghost: P, the set of all computations
(tasks) ever started for this property of this instance; ct, the computation the cached value came from.  Invariant J over it, for any
computations g, h:
  running or successful g:  the lock is g, or the value is cached and g is the successful one it came from
  g, h both successful: g is h;   cached: ct is a successful computation and the cached value is its result, and nothing is locked
  locked: by a computation of P
Every step of every reader keeps J (and keeps a cached value), so does a computation that ends; a new computation starts only when none runs
and none has succeeded."""
from .maps import *
from .tasks import *

P_ = "a_sync.a_sync.property:"
AP_ = "async_property.cached:"
KEY = "p"


class St:
    """the property's state in one instance"""

    def __init__(self, run, name):
        self.run = run
        self.cache = SymMap(run, name + "_cache")
        self.lock = LockMap(run, name + "_lock")
        cls = run.getattr_(run.world.module("async_property.cached"), "AsyncCachedPropertyInstanceState")
        self.obj = run.new(Obj(cls))
        run.write(self.obj, "cache", self.cache)
        run.write(self.obj, "lock", self.lock)


class Proxy(Val):
    """async_property's AwaitableProxy: stands for the value and gives it when awaited"""

    def __init__(self, v):
        self.v = v

    def await_(self, run, fr=None):
        return self.v


class LockMap(SymMap):
    """defaultdict(asyncio.Lock) with arbitrary contents; what this property's own entry holds is a task (J), a missing one becomes a Lock"""

    def __init__(self, run, name, empty=False):
        super().__init__(run, name, wrap=lambda r, t: SV(t, TASK), empty=empty)

    def getitem(self, run, x):
        if run.branch(self.contains(run, x)):
            return SV(self.G(run.to_V(x)), TASK)
        lk = run.fresh("new_lock")
        lk.model = NEWLOCK
        self.setitem(run, x, lk)
        return lk


class NewLock:
    def isinstance(self, run, o, c):
        import asyncio

        return isinstance(c, Ext) and isinstance(c.pyobj, type) and issubclass(asyncio.Lock, c.pyobj)

    def truth(self, run, o):
        return True

    def getattr(self, run, o, name):
        raise Unsupported("a lock's " + name)


NEWLOCK = NewLock()


class Reads(Contract):
    assumes = (
        "tasks: asyncio semantics (modelled); the shield: C21's contract; create_task: C15's contract",
        "the user does not assign or delete the property (which replaces the value)",
        "async_property's installed source is verified along with the repository's",
    )

    def J(self, run):
        """list of (formula, what)"""
        r = run
        has, val = z3.Select(self.s.cache.has, self.k), z3.Select(self.s.cache.val, self.k)
        lk, lv = z3.Select(self.s.lock.has, self.k), z3.Select(self.s.lock.val, self.k)
        Pm, ct = r.gget("P"), r.gget("ct")

        def ok(t):
            return z3.And(done(r, t), z3.Not(cancelled(r, t)), V.is_none(texc(r, t)))

        def P(t):
            return z3.Select(Pm, t)

        out = []
        pts = self.points(run)
        for g in pts:
            out.append((z3.Implies(z3.And(P(g), z3.Or(z3.Not(done(r, g)), ok(g))), z3.Or(z3.And(lk, lv == g, z3.Not(has)), z3.And(has, ok(g), g == ct))), "a computation that runs or succeeded is the one all readers share"))
        out.append((z3.Implies(has, z3.And(P(ct), ok(ct), val == result(r, ct), z3.Not(lk))), "the cached value is the successful computation's"))
        out.append((z3.Implies(lk, P(lv)), "what readers wait for is a computation of this property of this instance"))
        return out

    def setting(self, run):
        """ghost: the computation a reader has just cached the value of; and what the property's values are not (other properties' subjects)"""
        ch = self.at[0]
        aws = [e for e in run.trace if e[0] == "await"]
        if aws:
            has = z3.Select(self.s.cache.has, self.k)
            run.gset("ct", z3.If(z3.And(has, z3.Not(z3.Select(ch, self.k))), aws[-1][1].t, run.gget("ct")))

    def plain(self, run):
        for p in self.points(run):
            run.assume(z3.Implies(z3.Select(run.gget("P"), p), V.is_opq(p)))
            run.assume(z3.Not(z3.Function("isawaitable", V, z3.BoolSort())(result(run, p))))
            run.assume(z3.Function("str_of", V, z3.StringSort())(texc(run, p)) != z3.StringVal("This event loop is already running"))

    def points(self, run):
        pts = [self.g, self.h, run.gget("ct"), z3.Select(self.s.lock.val, self.k)]
        pts += [e[1].t for e in run.trace if e[0] == "await"] + [t.t for c, t in run.tasks]
        out = []
        for p in pts:
            if not any(p.eq(q) for q in out):
                out.append(p)
        return out

    def ghost(self, run, n):
        run.gset("P", z3.Const(run.fresh_name("P"), BoolMap))
        run.gset("ct", z3.Const(run.fresh_name("ct"), V))

    def setup(self, run, sync, is_coro=True, mods=""):
        tinit(run)
        install_tasks(run)
        rest_has_no_flags(run)
        self.k = run.to_V(KEY)
        self.g, self.h, self.x = z3.Const("g", V), z3.Const("h", V), z3.Const("other_key", V)
        run.hooks["points"] = lambda r: []
        run.hooks["user_ret"] = lambda r, v: r.assume(z3.Not(z3.Function("isawaitable", V, z3.BoolSort())(v.t)))
        run.hooks["loop_running"] = False
        self.fn = UserFn("fn", is_coro)
        run.summaries.update({
            "a_sync._smart:shield": self.shield,
            "a_sync.asyncio.create_task:ccreate_task_simple": self.create,
        })
        a = "async " if is_coro else ""
        ns = user_module(
            run,
            f"""
from a_sync import ASyncGenericBase
from a_sync.a_sync.property import a_sync_cached_property
class K(ASyncGenericBase):
    def __init__(self, sync=True):
        ASyncGenericBase.__init__(self)
        self.sync = sync
    @a_sync_cached_property{mods}
    {a}def p(self):
        return {'await ' if is_coro else ''}FN(self)
o = K(sync={sync})
o2 = K(sync={sync})
""",
            FN=self.fn,
        )
        run.setattr_(run.world.module("async_property.cached"), "AwaitableProxy", Native("AwaitableProxy", lambda r, a, k: Proxy(a[0])))
        self.o, self.o2 = ns["o"], ns["o2"]
        self.created = []
        return ns

    def instance(self, run):
        self.s, self.s2 = St(run, "a"), St(run, "b")
        run.write(self.o, "__async_property__", self.s.obj)
        run.write(self.o2, "__async_property__", self.s2.obj)
        self.ghost(run, 0)
        for f, _ in self.J(run):
            run.assume(f)
        self.plain(run)

    def shield(self, r, f, args, kw):
        t = args[0].t
        r.prove(z3.Not(z3.And(done(r, t), z3.Or(cancelled(r, t), z3.Not(V.is_none(texc(r, t)))))), "a reader never joins a computation that had failed before")
        r.event("shield", args[0])
        return args[0]

    def create(self, r, f, args, kw):
        c = args[0]
        r.prove(isinstance(c, Coro), "a computation is a task for a coroutine")
        has = z3.Select(self.s.cache.has, self.k)
        Pm = r.gget("P")
        g = self.g
        r.cover("computes")
        r.prove(z3.Implies(z3.Select(Pm, g), z3.And(done(r, g), z3.Not(z3.And(z3.Not(cancelled(r, g)), V.is_none(texc(r, g)))))), "a computation starts only when none runs and none has succeeded")
        t = r.hooks["loop_create_task"](r, None, [c], {})
        r.assume(z3.Not(z3.Select(Pm, t.t)))
        for p in self.points(r)[:4]:
            r.assume(p != t.t)
        r.gset("P", z3.Store(Pm, t.t, True))
        self.created.append((c, t))
        return t

    def prove_J(self, run, when):
        self.setting(run)
        for f, what in self.J(run):
            run.prove(f, f"{when}: {what}")

    def rely(self, run):
        """other readers run, computations end"""
        self.prove_J(run, "when a reader waits")
        self.guarantee(run, "when a reader waits")
        Pm, ct = run.gget("P"), run.gget("ct")
        has, val = z3.Select(self.s.cache.has, self.k), z3.Select(self.s.cache.val, self.k)
        olds = havoc(run)
        oexc = run.gget("fut.exc")
        run.gset("fut.exc", z3.Const(run.fresh_name("fut_exc"), VMap))
        pts = self.points(run)
        self.ghost(run, 1)
        self.s.cache.havoc(run)
        self.s.lock.havoc(run)
        for p in pts:
            stays(run, p, olds)
            run.assume(z3.Implies(z3.Select(olds["done"], p), texc(run, p) == z3.Select(oexc, p)))
            run.assume(z3.Implies(z3.Select(Pm, p), z3.Select(run.gget("P"), p)))
        run.assume(z3.Implies(has, z3.And(z3.Select(self.s.cache.has, self.k), z3.Select(self.s.cache.val, self.k) == val, run.gget("ct") == ct)))
        for f, _ in self.J(run):
            run.assume(f)
        self.plain(run)
        self.mark(run)

    def mark(self, run):
        """the state at the beginning of an atomic step"""
        self.at = (self.s.cache.has, self.s.cache.val, self.s.lock.has, self.s.lock.val, self.s2.cache.has, self.s2.cache.val, self.s2.lock.has, self.s2.lock.val)

    def guarantee(self, run, when):
        ch, cv, lh, lv, *s2 = self.at
        has = z3.Select(ch, self.k)
        run.prove(z3.Implies(has, z3.And(z3.Select(self.s.cache.has, self.k), z3.Select(self.s.cache.val, self.k) == z3.Select(cv, self.k))), f"{when}: a cached value stays")
        x = self.x
        for a, b in ((ch, self.s.cache.has), (cv, self.s.cache.val), (lh, self.s.lock.has), (lv, self.s.lock.val)):
            run.prove(z3.Implies(x != self.k, z3.Select(a, x) == z3.Select(b, x)), f"{when}: other properties of the instance are left alone")
        now2 = (self.s2.cache.has, self.s2.cache.val, self.s2.lock.has, self.s2.lock.val)
        run.prove(all(a.eq(b) for a, b in zip(s2, now2)), f"{when}: other instances are left alone")


class Read(Reads):
    functions = [
        P_ + "_ASyncPropertyDescriptorBase.__init__", P_ + "_ASyncPropertyDescriptorBase.__get__", P_ + "_ASyncPropertyDescriptorBase.get", P_ + "ASyncCachedPropertyDescriptor.__init__",
        P_ + "ASyncCachedPropertyDescriptor.get_lock", P_ + "ASyncCachedPropertyDescriptor.pop_lock", P_ + "ASyncCachedPropertyDescriptor.get_loader", P_ + "HiddenMethod.__await__", P_ + "HiddenMethodDescriptor.__get__",
        P_ + "a_sync_cached_property", P_ + "_parse_args", "a_sync.a_sync._helpers:_await", "a_sync.a_sync._meta:ASyncMeta.__new__",
        AP_ + "AsyncCachedPropertyDescriptor.__get__", AP_ + "AsyncCachedPropertyDescriptor.__set__", AP_ + "AsyncCachedPropertyDescriptor.get_instance_state", AP_ + "AsyncCachedPropertyDescriptor.not_loaded", AP_ + "AsyncCachedPropertyDescriptor.already_loaded",
    ]
    must_cover = ("cached", "computes", "waited", "joined", "got a value", "got a failure", "reader cancelled")

    def __init__(self, form):
        self.form = form
        self.name = f"reading a cached property ({form}): at most one successful computation, everybody's value"

    def run(self, run):
        form = self.form
        self.setup(run, sync=form.startswith("sync"))
        self.instance(run)
        self.mark(run)
        was = z3.Select(self.s.cache.has, self.k)
        run.assume(was) if run.fork("nothing cached", "cached") else run.assume(z3.Not(was))
        lk0 = z3.Select(self.s.lock.has, self.k)
        n0 = len(run.trace)
        if form == "sync object":
            out = outcome_of(run, lambda: run.getattr_(self.o, "p"))
        elif form == "async object":
            out = outcome_of(run, lambda: self.wait(run, run.getattr_(self.o, "p")))
        elif form == "async object, hidden method":
            out = outcome_of(run, lambda: self.wait(run, run.call(run.getattr_(self.o, "__p__"), [], {})))
        elif form == "async object, hidden method awaited":
            out = outcome_of(run, lambda: self.wait(run, run.getattr_(self.o, "__p__")))
        elif form == "async object, hidden method made synchronous":
            out = outcome_of(run, lambda: run.call(run.getattr_(self.o, "__p__"), [], {"sync": True}))
        else:
            out = outcome_of(run, lambda: self.wait(run, run.call(run.getattr_(self.o, "__p__"), [], {"sync": False})))
        self.finish(run, out, n0, was, lk0)

    def wait(self, run, aw):
        run.hooks["loop_running"] = True
        try:
            return run.await_(aw)
        finally:
            run.hooks["loop_running"] = False

    def finish(self, run, out, n0, was, lk0):
        self.prove_J(run, "at the end")
        self.guarantee(run, "at the end")
        run.prove(not [e for e in run.trace[n0:] if e[0] == "user"], "readers do not run the function themselves: a computation does")
        susp = [e for e in run.trace[n0:] if e[0] == "suspend"]
        aws = [e for e in run.trace[n0:] if e[0] == "await"]
        if run.holds(was):
            run.cover("cached")
            run.prove(not aws, "a cached value is there at once")
        if susp:
            run.cover("waited")
            if not self.created:
                run.cover("joined")
        run.prove(all(any(e[0] == "shield" and e[1] is a[1] for e in run.trace) for a in aws), "readers wait through the shield: one that leaves takes nothing from the others")
        run.prove(len(self.created) <= 1, "a reader starts at most one computation")
        has, val = z3.Select(self.s.cache.has, self.k), z3.Select(self.s.cache.val, self.k)
        g = self.g
        okg = z3.And(z3.Select(run.gget("P"), g), done(run, g), z3.Not(cancelled(run, g)), V.is_none(texc(run, g)))
        if out[0] == "ret":
            run.cover("got a value")
            run.prove(z3.And(has, run.to_V(out[1]) == val), "the reader's value is the property's cached value")
            run.prove(z3.Implies(okg, run.to_V(out[1]) == result(run, g)), "and the one result of the one successful computation")
            return
        run.prove(bool(aws), "a read fails only with the computation it waited for")
        if not aws:
            return
        t = aws[-1][1].t
        run.prove(z3.Select(run.gget("P"), t), "waits for a computation of this property of this instance")
        failed = z3.And(done(run, t), z3.Or(cancelled(run, t), z3.Not(V.is_none(texc(run, t)))))
        if exc_name(run, out[1]) == "CancelledError":
            run.cover("reader cancelled")
            return
        run.cover("got a failure")
        run.prove(failed, "fails only if its computation failed")
        run.prove(run.to_V(out[1]) == texc(run, t), "with that computation's exception")
        run.prove(z3.Not(z3.And(z3.Select(self.s.lock.has, self.k), z3.Select(self.s.lock.val, self.k) == t)), "a failed computation is not remembered")


class Computation(Reads):
    """what a computation runs; it ends"""

    functions = [P_ + "_ASyncPropertyDescriptorBase.__init__", "a_sync.a_sync._helpers:_asyncify"]
    must_cover = ("computes", "ran", "function raised", "second instance")

    def __init__(self, is_coro):
        self.is_coro = is_coro
        self.name = f"a computation runs the property's {'coroutine' if is_coro else 'plain'} function once, with its own instance"

    def run(self, run):
        self.setup(run, False, self.is_coro)
        other = run.fork("instance", "second instance")
        if other:
            self.o, self.o2 = self.o2, self.o
            run.cover("second instance")
        self.instance(run)
        self.mark(run)
        run.assume(z3.Not(z3.Select(self.s.cache.has, self.k)))
        run.assume(z3.Not(z3.Select(self.s.lock.has, self.k)))
        run.assume(self.g != self.h)
        run.hooks["loop_running"] = True
        outcome_of(run, lambda: run.await_(run.getattr_(self.o, "p")))
        run.prove(len(self.created) == 1, "the first reader starts a computation")
        if len(self.created) != 1:
            return
        n0 = len(run.trace)
        out = outcome_of(run, lambda: run.await_(self.created[0][0]))
        us = [e for e in run.trace[n0:] if e[0] == "user"]
        run.prove(len(us) == 1 and len(us[0][2]) == 1 and us[0][2][0] is self.o and not us[0][3], "the function runs once, with the instance")
        run.cover("ran")
        for e in run.trace[n0:]:
            if e[0] == "user-ret":
                prove_outcome(run, out, ("ret", e[2]), "the computation's result is the function's")
            if e[0] == "user-exc":
                run.cover("function raised")
                prove_outcome(run, out, ("exc", e[2]), "the computation fails as the function does")


class Ends(Reads):
    name = "a computation that ends leaves at most one successful"
    functions = [P_ + "ASyncCachedPropertyDescriptor.get_lock"]
    must_cover = ("ended",)

    def run(self, run):
        self.setup(run, False)
        self.instance(run)
        t = self.h
        run.assume(z3.Select(run.gget("P"), t))
        run.assume(z3.Not(done(run, t)))
        self.mark(run)
        setdone(run, t, run.fresh("value"), z3.Bool("is_cancelled"))
        run.cover("ended")
        self.prove_J(run, "after a computation ended")


class First(Reads):
    name = "an instance read for the first time gets a state of its own"
    functions = [AP_ + "AsyncCachedPropertyDescriptor.get_instance_state", AP_ + "AsyncCachedPropertyInstanceState.__init__"]
    must_cover = ("first",)

    def run(self, run):
        self.setup(run, False)
        desc = run.class_attr(self.o.cls, KEY)
        run.hooks["ext_call"] = lambda r, f, a, k: LockMap(r, "lock", empty=True) if isinstance(f, Ext) and f.path.endswith("defaultdict") else UNSET
        st = outcome_of(run, lambda: run.call(run.getattr_(desc, "get_instance_state"), [self.o], {}))
        st2 = outcome_of(run, lambda: run.call(run.getattr_(desc, "get_instance_state"), [self.o2], {}))
        run.prove(st[0] == st2[0] == "ret" and isinstance(st[1], Obj) and isinstance(st2[1], Obj), "reading works")
        run.prove(st[1] is not st2[1], "instances never share a state")
        again = run.call(run.getattr_(desc, "get_instance_state"), [self.o], {})
        run.prove(again is st[1], "an instance keeps its state")
        for s in (st[1], st2[1]):
            c, l = s.fields["cache"], s.fields["lock"]
            run.prove(isinstance(c, DictObj) and not c.entries, "nothing is cached at first")
            run.prove(z3.Not(z3.Select(l.has, self.x)) if isinstance(l, LockMap) else not l.entries and l.rest is None, "nothing is being computed at first")
        run.prove(st[1].fields["cache"] is not st2[1].fields["cache"] and st[1].fields["lock"] is not st2[1].fields["lock"], "instances never share values")
        run.cover("first")


def contracts():
    return [Read(f) for f in ("sync object", "async object", "async object, hidden method", "async object, hidden method awaited", "async object, hidden method made synchronous", "sync object, hidden method made asynchronous")] + [Computation(True), Computation(False), Ends(), First()]
