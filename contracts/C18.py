"""Task mappings, at one generic key g (contracts/keyed.py): what holds of g holds of every key."""
from .collect import *
from .C16 import CONSUMER, F, Source, Streams, user_error
from .keyed import *

T_ = "a_sync.task:"
TM = T_ + "TaskMapping."

ASSUMES = (
    "dict and set operations act on their own key only; keys are hashable values compared by equality (trusted)",
    "while the mapping is iterated, nobody else pops its keys, and keys popped by it are not asked for again",
    "a task has one outcome, given to everyone who awaits it (asyncio; C15)",
)


class Loader(Val):
    """the task that loads the keys: at its end every key of the sources has been started, unless it failed (contracts Start..., C17)"""

    cls = Ext("asyncio.Task", __import__("asyncio").Task)

    def __init__(self, c):
        self.c = c

    def truth(self, run):
        return True

    def isawaitable(self, run):
        return True

    def getattr(self, run, name):
        if name == "done":
            return Native(name, lambda r, a, k: SBool(B(r, "ld")))
        if name == "cancel":
            return Native(name, lambda r, a, k: r.event("loader cancelled") or True)
        if name == "add_done_callback":
            return Native(name, lambda r, a, k: r.event("loader callback", a[0]))
        return UNSET

    def await_(self, run):
        run.rely()
        setb(run, "ld", z3.BoolVal(True))
        facts(run)
        return self.c.loader_result(run)


class NextEvent(Val):
    def __init__(self, c):
        self.c = c

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name == "wait":
            return Native(name, lambda r, a, k: Coro(lambda: self.wait(r), "wait", [], {}, None))
        if name in ("set", "clear"):
            return Native(name, lambda r, a, k: r.event("_next." + name))
        return UNSET

    def wait(self, run):
        run.prove(z3.Not(z3.And(B(run, "has"), B(run, "done"), z3.Not(B(run, "delivered")))), "nothing that is done is kept waiting")
        run.rely()
        return True


class Iterate(Contract):
    """what iterates a mapping: every key at most once, with its own result; at the end every key that was there or in the source"""

    assumes = ASSUMES
    light = False
    source = "loader"
    pop = False
    yields = "both"
    consumer_pops = False

    def rely(self, run):
        interfere(run, self.consumer_pops)

    def loader_result(self, run):
        if run.branch(run.keys.lfail):
            self.failure = self.lerr
            raise PyExc(self.lerr)

    def invariants(self, run, loop_id, st, fr, cur):
        if getattr(run, "keys", None) is None:
            return
        yield from pairs(run)

    def prepare(self, run):
        self.failure, self.left = None, None
        k = kinit(run)
        install_keys(run)
        self.lerr = user_error(run, "loader_error")
        cls = run.world.fn(T_ + "TaskMapping")
        m = run.new(Obj(cls))
        run.write(m, "#dict", Storage(run))
        k.loader = self.source == "loader"
        facts(run)
        if k.loader:
            run.write(m, "_init_loader", Loader(self))
            run.write(m, "_next", NextEvent(self))
        else:
            run.write(m, "_init_loader", None)
            run.write(m, "_next", None if self.light or run.fork("no event", "event") == 0 else NextEvent(self))
        run.write(m, "concurrency", None)
        self.m = m
        self.has0 = B(run, "has")
        self.install_summaries(run)
        return m

    def install_summaries(self, run):
        def clear(r, f, a, k):
            pop = a[1] if len(a) > 1 else k["pop"]

            def go():
                if r.truth(pop):
                    r.event("cleared")
                    setb(r, "has", z3.BoolVal(False))
                    setb(r, "popped", z3.BoolVal(True))
                    r.rely()

            return Coro(go, "_if_pop_clear", list(a), dict(k), f)

        def next_key(r, f, a, k):
            def go():
                r.rely()
                if r.fork("a key or the end", "the loader fails") == 1:
                    r.assume(r.keys.lfail)
                    setb(r, "ld", z3.BoolVal(True))
                    self.failure = self.lerr
                    raise PyExc(self.lerr)

            return Coro(go, "_wait_for_next_key", list(a), dict(k), f)

        def completed(r, f, a, k):
            k = dict(k)
            ai = k.pop("aiter", False)
            if len(a) != 1 or k or ai is not True:
                raise Unsupported(f"as_completed({a!r}, {k!r})")
            d = copied(r, a[0])
            return Completing(d)

        run.summaries[TM + "_if_pop_clear"] = clear
        run.summaries[TM + "_wait_for_next_key"] = next_key
        run.summaries["a_sync.asyncio.as_completed:as_completed"] = completed

    def deliver(self, run, a, k):
        x = a[0]
        key, val = x if self.yields == "both" else (x, None) if self.yields == "keys" else (None, x)
        if key is not None:
            g = isg(run, key)
        else:
            g = getattr(val, "owner", None)
            run.prove(g is not None, "what is yielded is a key's result")
            g = g == "g"
        if g:
            run.prove(z3.Not(B(run, "delivered")), "no key is yielded twice")
            if self.yields == "keys" and not self.pop:
                run.prove(B(run, "has"), "a key is in the mapping when it is yielded")
            setb(run, "delivered", z3.BoolVal(True))
            if val is not None:
                t = self.task_at(run)
                run.prove(z3.And(run.to_V(val) == RET(t), z3.Not(FAILS(t))), "a key comes with the result of its own task")
            run.cover("yielded")
        if run.fork("goes on", "the consumer leaves") == 1:
            self.left = user_error(run, "leaving")
            raise PyExc(self.left)
        run.rely()

    def task_at(self, run):
        return z3.If(B(run, "popped"), run.gget("ptask"), run.gget("task"))

    def judge(self, run, out):
        if out[0] == "exc":
            if self.left is not None:
                run.cover("left")
                prove_same(run, out[1], self.left, "the consumer's own exception")
                return
            if self.failure is not None:
                run.cover("loader failed")
                prove_same(run, out[1], self.failure, "a source's failure is raised as it is")
                return
            fs = [e for e in run.trace if e[0] == "task failed"]
            if fs:
                run.cover("a key failed")
                prove_same(run, out[1], fs[-1][2], "a key's failure is raised as it is")
                return
            if exc_name(run, out[1]) == "MappingIsEmptyError" and self.source != "loader":
                run.cover("empty")
                run.prove(z3.Not(self.has0), "only an empty mapping has nothing to iterate")
                return
            run.prove(False, "it fails only if a key, a source or the consumer does")
            return
        run.cover("ended")
        if self.source == "loader":
            run.prove(B(run, "ld") if not self.pop else z3.BoolVal(True), "the loader has ended")
            run.prove(z3.Not(run.keys.lfail), "no source failed")
            run.prove(z3.Implies(run.keys.insource, B(run, "delivered")), "every key of the sources was yielded")
        run.prove(z3.Implies(self.has0, B(run, "delivered")), "every key that was there was yielded")


def copied(run, v):
    from pyvc import models

    d = models.copied(run, v, "dict")
    if not isinstance(d, KColl):
        raise Unsupported(f"as_completed of {v!r}")
    return d


class Completing(Val):
    """as_completed of a mapping, by the contract C14 proves: every (key, result) once, as they complete; a failure is raised"""

    def __init__(self, d):
        self.d = d

    def iterator(self, run, *_):
        def get(pair):
            def f(r):
                k, t = pair(r)
                return (k, r.await_(t))

            return f

        return KCursor(self.d, get=get(lambda r: self.d.elem_g(r)), get_o=get(lambda r: self.d.elem_o(r)))


class AIter(Iterate):
    functions = [TM + "__aiter__", TM + "_if_pop_check_destroyed", TM + "_raise_if_empty", TM + "__getitem__"]

    def __init__(self, pop, source):
        self.pop, self.source = pop, source
        self.name = f"__aiter__, {'popping' if pop else 'not popping'}, {'keys from sources' if source == 'loader' else 'keys asked for'}"
        self.must_cover = ("yielded", "ended", "left", "a key failed") + (("loader failed",) if source == "loader" else ("empty",))

    def run(self, run):
        m = self.prepare(run)
        ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: self.deliver(r, a, k)))
        it = run.call(run.getattr_(m, "__aiter__"), [], {"pop": self.pop})
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [it], {})))
        self.judge(run, out)
        n = [e for e in run.trace if e[0] == "cleared"]
        run.prove(bool(n) == self.pop, "popping empties the mapping in the end, and only that")


class Keys_(Iterate):
    """the keys view's own iteration; not popping, the consumer may pop the keys it was given"""

    yields = "keys"

    def __init__(self, pop, source):
        self.pop, self.source = pop, source
        self.consumer_pops = not pop
        self.functions = [T_ + "TaskMappingKeys." + n for n in ("__aiter__", "_TaskMappingKeys__load_existing", "_TaskMappingKeys__load_init_loader")]
        self.name = f"keys(), {'popping' if pop else 'not popping'}, {'keys from sources' if source == 'loader' else 'keys asked for'}"
        self.must_cover = ("yielded", "ended", "left") + (("loader failed",) if source == "loader" else ())

    def view(self, run, m, cls):
        v = run.new(Obj(run.world.fn(T_ + cls)))
        run.write(v, "__mapping__", m)
        run.write(v, "__view__", run.call(run.getattr_(m.fields["#dict"], {"TaskMappingKeys": "keys", "TaskMappingValues": "values"}.get(cls, "items")), [], {}))
        if self.pop:
            run.write(v, "_pop", True)
        return v

    cls = "TaskMappingKeys"

    def run(self, run):
        m = self.prepare(run)
        ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: self.deliver(r, a, k)))
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [self.view(run, m, self.cls)], {})))
        self.judge(run, out)


class KeysOf(Val):
    """mapping.keys() by the contract above: every key once, while the consumer may pop what it got"""

    def __init__(self, c):
        self.c = c

    def iterator(self, run, *_):
        return KeysCursor(self.c)


class KeysCursor(KCursor):
    def __init__(self, c):
        self.con = c

    def begin(self, run):
        self.st = run.new(Obj(Ext("builtins.object", object)))
        run.write(self.st, "given", SBool(z3.BoolVal(False)))
        self.has00 = B(run, "has")

    def pending(self):
        return z3.Not(self.given())

    def candidates(self, run):
        for n, f in flag_terms(run):
            yield f"pending -> not {n}", lambda f=f: z3.Implies(self.pending(), z3.Not(f()))
            yield f"given -> {n}", lambda f=f: z3.Implies(self.given(), f())
            yield f"given -> not {n}", lambda f=f: z3.Implies(self.given(), z3.Not(f()))
        yield "there at first and pending -> still there", lambda: z3.Implies(z3.And(self.has00, self.pending()), B(run, "has"))

    def more(self, run):
        run.rely()
        opts = ["another key's turn", "no more keys"] + (["a source fails"] if self.con.source == "loader" else [])
        if run.branch(z3.And(self.pending(), B(run, "has"))) and run.fork("g's turn", "not yet") == 0:
            run.write(self.st, "given", SBool(z3.BoolVal(True)))
            self.x = run.keys.g
            return True
        how = opts[run.fork(*opts)]
        if how == "another key's turn":
            self.x = run.keys.other(run)
            run.keys.known.append(self.x.t)
            return True
        k = run.keys
        if how == "a source fails":
            run.assume(k.lfail)
            setb(run, "ld", z3.BoolVal(True))
            self.con.failure = self.con.lerr
            raise PyExc(self.con.lerr)
        if self.con.source == "loader":
            setb(run, "ld", z3.BoolVal(True))
            run.assume(z3.Not(k.lfail))
            run.assume(z3.Implies(k.insource, self.given()))
        run.assume(z3.Implies(self.has00, self.given()))
        return False


class View(Keys_):
    """items() and values()"""

    def __init__(self, what, pop, source):
        super().__init__(pop, source)
        self.consumer_pops = False
        self.cls = "TaskMapping" + what.capitalize()
        self.yields = {"items": "both", "values": "values"}[what]
        self.functions = [T_ + self.cls + ".__aiter__"]
        self.name = self.name.replace("keys()", what + "()")
        self.must_cover = self.must_cover + ("a key failed",)

    def install_summaries(self, run):
        super().install_summaries(run)

        def keys(r, f, a, k):
            pop = a[1] if len(a) > 1 else k.get("pop", False)
            r.prove(pop is False or r.holds(z3.Not(zbool(r.truth_term(pop)))), "the keys are not popped before they are used")
            return KeysOf(self)

        run.summaries[TM + "keys"] = keys


def unwrapped(run, d):
    """the function a decorator of the library was given"""
    while not isinstance(d, Closure):
        d = d.fields.get("__wrapped__") if isinstance(d, Obj) else None
        if d is None:
            raise Unsupported("not a decorated function")
    return d


class Completed(Iterate):
    """yield_completed: of the keys there, those that are done, each once, with their own results"""

    def __init__(self, pop):
        self.pop, self.source = pop, "none"
        self.functions = [TM + "yield_completed", TM + "pop"]
        self.name = f"yield_completed, {'popping' if pop else 'not popping'}"
        self.must_cover = ("yielded", "ended", "left", "a key failed")

    def run(self, run):
        m = self.prepare(run)
        ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: self.deliver(r, a, k)))
        fn = unwrapped(run, run.class_attr(m.cls, "yield_completed"))
        kw = {"pop": self.pop}
        if self.pop and run.fork("pop given", "pop absent") == 1:
            kw = {}
        it = run.call(fn, [m], kw)
        done0 = z3.And(B(run, "has"), B(run, "done"))
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [it], {})))
        if out[0] == "ret":
            run.cover("ended")
            run.prove(z3.Implies(done0, B(run, "delivered")), "everything that was done was yielded")
            return
        self.judge(run, out)


class CompletedNow(Val):
    """yield_completed() by the contract above"""

    def __init__(self, c, pop):
        self.c, self.pop = c, pop

    def iterator(self, run, *_):
        m = self.c.m.fields["#dict"]
        d = m.snapshot(run, "dict")
        ready = KColl(run, "dict", z3.And(d.bit, run.fresh("ready", "bool").t), d.vg, d.others)

        def get(pair):
            def f(r):
                k, t = pair(r)
                if self.pop:
                    t = m.pop(r, [k])
                return (k, r.await_(t))

            return f

        return KCursor(ready, get=get(lambda r: ready.elem_g(r)), get_o=get(lambda r: ready.elem_o(r)))


class TasksOf(Val):
    """_tasks_for_iterables by its contract: every key of the sources once, its task started; then it ends or fails"""

    def __init__(self, c, n):
        self.c, self.n = c, n

    def iterator(self, run, *_):
        return TasksCursor(self.c, self.n)


class TasksCursor(KCursor):
    def __init__(self, c, n):
        self.con, self.n = c, n

    def begin(self, run):
        self.st = run.new(Obj(Ext("builtins.object", object)))
        run.write(self.st, "given", SBool(z3.BoolVal(False)))
        run.keys.outer.append(self)

    def pending(self):
        return z3.Not(self.given())

    def candidates(self, run):
        return []

    def more(self, run):
        run.rely()
        k = run.keys
        if run.branch(z3.And(k.insource, self.pending(), z3.Not(B(run, "popped")))) and run.fork("g's turn", "not yet") == 0:
            run.write(self.st, "given", SBool(z3.BoolVal(True)))
            if not run.branch(B(run, "has")):
                t = run.fresh("task_g").t
                setb(run, "has", z3.BoolVal(True))
                setb(run, "done", z3.BoolVal(False))
                run.gset("task", t)
            self.x = (k.g, g_task(run))
            return True
        opts = ["another key's turn", "no more keys", "a source fails"] + (["an empty source"] if self.n == 1 else [])
        how = opts[run.fork(*opts)]
        if how == "another key's turn":
            o = k.other(run)
            k.known.append(o.t)
            self.x = (o, other_task(run))
            return True
        if how == "a source fails":
            self.con.failure = self.con.lerr
            raise PyExc(self.con.lerr)
        if how == "an empty source":
            run.assume(z3.Not(k.insource))
            e = run.call(run.world.fn(T_ + "_EmptySequenceError"), [run.fresh("source")], {})
            raise PyExc(e)
        run.assume(z3.Implies(k.insource, self.given()))
        return False


class Map(Iterate):
    light = True
    assumes = ASSUMES + ("tasks and sources fail with no _EmptySequenceError of a_sync.task",)

    def __init__(self, pop, source, yields):
        self.pop, self.source, self.yields = pop, source, yields
        self.functions = [TM + "map", T_ + "_yield"]
        self.name = f"map, {'popping' if pop else 'not popping'}, {dict(loader='keys from sources', none='keys asked for', given='keys given')[source]}, yields {yields}"
        self.must_cover = ("yielded", "ended", "left", "a key failed") + {"loader": ("loader failed",), "none": ("empty",), "given": ("loader failed", "not empty")}[source]

    def install_summaries(self, run):
        super().install_summaries(run)
        run.summaries[TM + "yield_completed"] = lambda r, f, a, k: CompletedNow(self, r.truth(k.get("pop", a[1] if len(a) > 1 else True)))
        run.hooks["task_error"] = lambda r, e: r.assume(z3.Not(zbool(r.isinstance_(e, r.world.fn(T_ + "_EmptySequenceError")))))

    def run(self, run):
        m = self.prepare(run)
        run.assume(z3.Not(zbool(run.isinstance_(self.lerr, run.world.fn(T_ + "_EmptySequenceError")))))
        its = []
        if self.source == "given":
            its = [run.fresh(f"source{i}") for i in range(1 + run.fork("one source", "several sources"))]

        def tasks(r, a, k):
            r.prove(len(a) == len(its) and all(x is y for x, y in zip(a, its)) and not k, "the caller's sources")
            return TasksOf(self, len(its))

        def completed(r, a, k):
            k = dict(k)
            pop = k.pop("pop", a[0] if a else True)
            r.prove(not k, "as declared")
            return CompletedNow(self, r.truth(pop))

        run.write(m, "_tasks_for_iterables", Native("_tasks_for_iterables", tasks))
        run.write(m, "yield_completed", Native("yield_completed", completed))
        kw = {"pop": self.pop}
        if self.yields != "both" or self.source != "given" and run.fork("yields absent", "yields both"):
            kw["yields"] = self.yields
        ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: self.deliver(r, a, k)))
        fn = unwrapped(run, run.class_attr(m.cls, "map"))
        it = run.call(fn, [m, *its], kw)
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [it], {})))
        if self.source == "given":
            if out[0] == "exc" and exc_name(run, out[1]) == "MappingNotEmptyError":
                run.cover("not empty")
                return
            if out[0] == "exc" and exc_name(run, out[1]) == "EmptySequenceError":
                return
            run.prove(z3.Implies(run.keys.insource, B(run, "delivered")) if out[0] == "ret" else True, "every key given was yielded")
            self.has0 = z3.BoolVal(False)
        self.judge(run, out)


class GetItem(Contract):
    """mapping[g]: the task that is there; else the function is run once for g, and its task is there from then on"""

    functions = [TM + "__getitem__", TM + "_TaskMapping__start_task", TM + "_TaskMapping__set_next"]
    assumes = ASSUMES + ("create_task runs the coroutine it is given once (C15); ProcessingQueue.put_nowait runs the function once for the item (C11)",)
    must_cover = ("there", "started", "queued")
    name = "looking up a key"

    def rely(self, run):
        run.event("suspended")

    def invariants(self, run, *a):
        return ()

    def run(self, run):
        k = kinit(run)
        install_keys(run)
        cls = run.world.fn(T_ + "TaskMapping")
        m = run.new(Obj(cls))
        run.write(m, "#dict", Storage(run))
        kwargs = run.dict({"alpha": run.fresh("alpha")})
        run.write(m, "_wrapped_func_kwargs", kwargs)
        concurrent = run.fork("no limit", "limited") == 1
        run.write(m, "concurrency", run.fresh("limit", "int") if concurrent else None)
        if concurrent:
            run.assume(m.fields["concurrency"].t > 0)
        ran, made, puts, created = [], [], [], []

        def fn(r, a, kw):
            ran.append((list(a), dict(kw)))
            c = ("run", len(ran))
            return c

        def task(r):
            t = r.fresh("new_task")
            t.model = KTASK
            created.append(t)
            return t

        def create(r, f, a, kw):
            kw = dict(kw)
            made.append(a[0] if a else kw.get("coro"))
            return task(r)

        def put(r, a, kw):
            puts.append((list(a), dict(kw)))
            return task(r)

        class Queue_(Val):
            def truth(self, r):
                return r.fresh("queue_truth", "bool").t

            def getattr(self, r, name):
                return Native(name, put) if name == "put_nowait" else UNSET

        if concurrent:
            run.write(m, "_queue", Queue_())
        run.write(m, "_wrapped_func", Native("wrapped", fn))
        run.write(m, "_name", None if run.fork("unnamed", "named") == 0 else "name")
        ev = NextEvent(self) if run.fork("no event", "event") == 1 else None
        run.write(m, "_next", ev)
        for n in ("create_task", "ccreate_task", "ccreate_task_simple"):
            run.summaries["a_sync.asyncio.create_task:" + n] = create
        present = run.branch(B(run, "has"))
        before = run.gget("task")
        out = outcome_of(run, lambda: run.getitem(m, k.g))
        run.prove(out[0] == "ret", "a key is always found")
        if out[0] != "ret":
            return
        n = len(ran) if not concurrent else len(puts)
        run.prove(not any(e[0] == "suspended" for e in run.trace), "nothing else happens meanwhile")
        if present:
            run.cover("there")
            run.prove(not ran and not puts and not made, "nothing is started again")
            run.prove(z3.And(run.to_V(out[1]) == before, B(run, "has"), run.gget("task") == before), "the key's task is given and kept")
            return
        run.prove(n == 1 and len(created) == 1, "the function is run once")
        run.prove(B(run, "has"), "the key has a task from then on")
        if len(created) == 1:
            run.prove(z3.And(run.to_V(out[1]) == created[0].t, run.gget("task") == created[0].t), "the task that runs it")
            cbs = [e for e in run.trace if e[0] == "add_done_callback" and e[1].t.eq(created[0].t)]
            run.prove(len(cbs) == (1 if ev is not None else 0), "its end is announced to who iterates the mapping")
            for c in cbs:
                t0 = len(run.trace)
                run.call(c[2], [created[0]], {})
                run.prove([e[0] for e in run.trace[t0:]] == ["_next.set", "_next.clear"], "who waits is woken, later waits wait again")
        if concurrent:
            run.cover("queued")
            run.prove(not ran, "the queue runs it")
            for a, kw in puts:
                run.prove(len(a) == 1 and not kw, "the key alone is queued")
                prove_same(run, a[0], k.g, "the key is queued")
        else:
            run.cover("started")
            run.prove(made == [("run", 1)], "the task runs the function")
            for a, kw in ran:
                run.prove(len(a) == 1 and set(kw) == {"alpha"}, "the key and the mapping's keywords")
                prove_same(run, a[0], k.g, "the key is the argument")
                prove_same(run, kw.get("alpha"), kwargs.entries["alpha"][1], "the mapping's keywords")
        # once more
        t0 = (len(ran), len(puts), len(made))
        again = run.getitem(m, k.g)
        run.prove((len(ran), len(puts), len(made)) == t0 and run.holds(run.to_V(again) == run.to_V(out[1])), "the second time it is there")


class SourceModel:
    def __init__(self, kind):
        self.kind = kind

    def truth(self, run, o):
        return run.fresh("source_truth", "bool").t

    def isinstance(self, run, o, c):
        n = getattr(c, "path", "").split(".")[-1]
        if n == "AsyncIterable":
            return self.kind == "async"
        if n == "Iterable":
            return self.kind == "sync"
        return None

    def isawaitable(self, run, o):
        return self.kind == "awaitable"

    def getattr(self, run, o, name):
        return UNSET


def a_source(run, name):
    s = run.fresh(name)
    s.model = SourceModel(("async", "sync", "awaitable")[run.fork(name + " is async", name + " is a container", name + " is awaitable")])
    return s


class Sources(KColl):
    """the sources: s, which has g, and others, which may"""

    as_varargs = True

    def contains(self, run, x):
        if x is self.vg or isinstance(self.vg, tuple) and x is self.vg[0]:
            return zbool(self.bit)
        if x is self.others:
            return True
        return zbool(self.bit) if x is run.keys.s else (False if x is run.keys.s_other else run.fresh("among_others", "bool").t)

    def length(self, run):
        if not hasattr(self, "_n"):
            n = run.fresh("n_sources", "int").t
            run.assume(n >= 1)
            self._n = n
        return self._n


class KeysOfSources(Val):
    """the keys of some sources, each source's as often and in the order it gives them.  s among them: g is given at least once, if it ends well"""

    def __init__(self, c, certain, allow_empty):
        self.c, self.certain, self.allow_empty = c, certain, allow_empty

    def iterator(self, run, *_):
        return SourceKeysCursor(self)


class SourceKeysCursor(KCursor):
    def __init__(self, src):
        self.src = src

    def begin(self, run):
        self.st = run.new(Obj(Ext("builtins.object", object)))
        run.write(self.st, "given", SBool(z3.BoolVal(False)))

    def pending(self):
        return z3.Not(self.given())

    def candidates(self, run):
        for n, f in flag_terms(run):
            yield f"given -> {n}", lambda f=f: z3.Implies(self.given(), f())

    def more(self, run):
        run.rely()
        src, con = self.src, self.src.c
        opts = ["another key's turn", "g's turn", "no more keys", "a source fails"]
        ae = src.allow_empty
        if not (ae is True or run.branch(zbool(run.truth_term(ae)))):
            opts.append("an empty source")
        how = opts[run.fork(*opts)]
        if how == "g's turn":
            run.write(self.st, "given", SBool(z3.BoolVal(True)))
            self.x = run.keys.g
            return True
        if how == "another key's turn":
            self.x = run.keys.other(run)
            return True
        if how == "a source fails":
            con.failure = con.lerr
            raise PyExc(con.lerr)
        if how == "an empty source":
            con.empty = True
            if src.certain is True:
                raise PathEnd()
            run.assume(z3.Not(zbool(src.certain)))
            raise PyExc(run.call(run.world.fn(T_ + "_EmptySequenceError"), [run.fresh("source")], {}))
        run.assume(z3.Implies(zbool(src.certain), self.given()))
        return False


class StartAll(Contract):
    """_start_tasks_for_iterables / _tasks_for_iterables: every key of every source is started, and yielded once with its task"""

    assumes = ASSUMES + ("as_yielded gives what its sources give (C17)", "sources are compared by identity", "looking up a key: contract above")
    must_cover = ("yielded", "ended", "left", "a source failed")

    def __init__(self, fn):
        self.functions = [TM + fn]
        self.fn = fn
        self.name = fn

    def rely(self, run):
        interfere(run)

    def invariants(self, run, loop_id, st, fr, cur):
        if getattr(run, "keys", None) is not None:
            yield from pairs(run)

    def run(self, run):
        self.failure, self.left, self.empty = None, None, False
        k = kinit(run)
        install_keys(run)
        self.lerr = user_error(run, "source_error")
        run.assume(z3.Not(zbool(run.isinstance_(self.lerr, run.world.fn(T_ + "_EmptySequenceError")))))
        cls = run.world.fn(T_ + "TaskMapping")
        m = run.new(Obj(cls))
        run.write(m, "#dict", Storage(run))
        k.s, k.s_other = a_source(run, "source"), a_source(run, "other_source")
        run.assume(k.s.t != k.s_other.t)
        srcs = Sources(run, "tuple", z3.BoolVal(True), k.s, k.s_other)
        n = srcs.length(run)
        run.hooks["kcoll_class"] = Sources

        def start(r, f, a, kw):
            if isg(r, a[1]):
                r.prove(z3.Not(B(r, "has")), "a key that is there is not started again")
                t = r.fresh("task_g").t
                setb(r, "has", z3.BoolVal(True))
                setb(r, "done", z3.BoolVal(False))
                r.gset("task", t)
                return g_task(r)
            return other_task(r)

        def yield_keys(r, f, a, kw):
            a = list(a)
            s = a[0]
            ae = a[1] if len(a) > 1 else kw.get("allow_empty", False)
            r.prove(z3.Implies(n > 1, zbool(r.truth_term(ae))), "one empty source among several is no error")
            return KeysOfSources(self, True if s is k.s else z3.BoolVal(False), ae)

        def merged(r, f, a, kw):
            r.prove(not kw, "as declared")
            if len(a) == 1 and isinstance(a[0], StarArgs):
                c = a[0].seq
                x = c.elem_g(r)
                some = [x] + ([c.elem_o(r)] if c.others is not None else [])
                certain = c.bit
            else:
                some, certain = list(a), z3.BoolVal(any(isinstance(x, KeysOfSources) and x.certain is True for x in a))
            if not all(isinstance(x, KeysOfSources) for x in some if x is not None):
                raise Unsupported(f"merging {some!r}")
            return KeysOfSources(self, certain, some[0].allow_empty if some[0] is not None else some[-1].allow_empty)

        run.summaries[TM + "_TaskMapping__start_task"] = start
        run.summaries[TM + "__start_task"] = start
        run.summaries[T_ + "_yield_keys"] = yield_keys
        run.summaries["a_sync.utils.iterators:as_yielded"] = merged

        def note(r, a, kw):
            key, task = a[0]
            if isg(r, key):
                r.prove(z3.Not(B(r, "delivered")), "no key is yielded twice")
                setb(r, "delivered", z3.BoolVal(True))
                r.prove(z3.And(B(r, "has"), r.to_V(task) == r.gget("task")), "a key comes with its own task, which is in the mapping")
                r.cover("yielded")
            if r.fork("goes on", "the consumer leaves") == 1:
                self.left = user_error(r, "leaving")
                raise PyExc(self.left)
            r.rely()

        ns = user_module(run, CONSUMER, note=Native("note", note))
        fn = unwrapped(run, run.class_attr(cls, self.fn))
        it = run.call(fn, [m, StarArgs(srcs)], {})
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [it], {})))
        if out[0] == "ret":
            run.cover("ended")
            run.prove(z3.And(B(run, "delivered"), B(run, "has")), "every key of every source was started and yielded")
        elif self.left is not None:
            run.cover("left")
            prove_same(run, out[1], self.left, "the consumer's own exception")
        elif self.failure is not None:
            run.cover("a source failed")
            prove_same(run, out[1], self.failure, "a source's failure is raised as it is")
        else:
            run.prove(self.empty, "it fails only if a source or the consumer does")
            run.prove(n == 1, "or its only source is empty")


class KeySource(Source):
    """a falsy container is empty"""

    def truth(self, run, o):
        if self.is_async:
            return run.fresh("source_truth", "bool").t
        t = z3.Bool("source_truthy")
        run.assume(z3.Implies(z3.Not(t), z3.And(self.n == 0, z3.Not(self.fails))))
        return t

    def isawaitable(self, run, o):
        return False


class Promise(Val):
    """an awaitable that gives a source, or fails"""

    cls = Ext("types.CoroutineType", __import__("types").CoroutineType)

    def __init__(self, c, src):
        self.c, self.src = c, src

    def truth(self, run):
        return True

    def isawaitable(self, run):
        return True

    def await_(self, run):
        run.rely()
        run.event("awaited")
        if run.fork("it gives a source", "it fails") == 1:
            self.c.bad = user_error(run, "awaitable_error")
            raise PyExc(self.c.bad)
        return self.src.val


class YieldKeys(Streams):
    """_yield_keys: what the source gives, in its order; nothing there is an error unless allowed"""

    functions = [T_ + "_yield_keys"]
    mode = "async"
    assumes = ("a container that is falsy is empty", "awaitables are truthy") + Streams.assumes

    def __init__(self, kind, promised):
        self.kind, self.promised = kind, promised
        self.name = f"_yield_keys of {'an awaitable of ' if promised else ''}{'an asynchronous iterable' if kind == 'async' else 'a container'}"
        self.must_cover = ("ended", "source failed") + (("refused",) if kind == "sync" else ()) + (("awaitable failed",) if promised else ())

    def run(self, run):
        self.prepare(run, self.kind == "async")
        n, fails = self.src.n, self.src.fails
        self.src = KeySource(run, self.kind == "async")
        run.hooks["loop_running"] = True
        self.bad = None
        kw = {}
        allow = False
        how = run.fork("absent", "False", "True")
        if how:
            allow = kw["allow_empty"] = how == 2
        arg = Promise(self, self.src) if self.promised else self.src.val
        it = run.call(run.world.fn(self.functions[0]), [arg], kw)
        out = self.consume(run, it)
        if self.bad is not None:
            run.cover("awaitable failed")
            prove_outcome(run, out, ("exc", self.bad), "the awaitable's failure is raised as it is")
            return
        if self.promised:
            run.prove(len([e for e in run.trace if e[0] == "awaited"]) == 1, "it is awaited once")
        if out[0] == "exc" and exc_name(run, out[1]) == "_EmptySequenceError":
            run.cover("refused")
            run.prove(not allow and self.kind == "sync", "only if an empty source is not allowed")
            run.prove(z3.And(self.src.n == 0, z3.Not(self.src.fails)), "only an empty source")
            run.prove(z3.Not(z3.Bool("source_truthy")), "only an empty container")
            return
        self.judge(run, out)


class RunOnce(Contract):
    """the function a mapping with sources runs: the caller's own, once, with the key and the keywords, with its own outcome"""

    functions = [TM + "__init__", TM + "__init__.<locals>._wrapped_set_next"]
    name = "running the function"
    must_cover = ("returns", "raises")
    assumes = (
        "an exception raised in the body of a coroutine function has a traceback of more than one frame when it is caught by its caller",
        "exhaust_iterator: C17; Queue, Event and functools.wraps as documented",
    )

    def run(self, run):
        run.hooks["loop_running"] = True
        fn = UserFn("fn", True)
        srcs = [run.fresh("source")]
        key, alpha = run.fresh("key"), run.fresh("alpha")
        exhausted = []
        run.summaries["a_sync.utils.iterators:exhaust_iterator"] = lambda r, f, a, k: exhausted.append((list(a), dict(k))) or Coro(lambda: None, "exhaust", list(a), dict(k), f)
        started = []

        def start_all(r, f, a, k):
            started.append((list(a), dict(k)))
            return "all keys"

        for n in ("create_task", "ccreate_task", "ccreate_task_simple"):
            run.summaries["a_sync.asyncio.create_task:" + n] = lambda r, f, a, k: Loader(self)
        at = lambda n, x: z3.Function("attr_" + n, V, V)(x)
        run.hooks["user_exc"] = lambda r, e: r.assume(z3.Not(V.is_none(at("tb_next", at("__traceback__", e.t)))))
        m = run.new(Obj(run.world.fn(T_ + "TaskMapping")))
        run.write(m, "#dict", run.new(DictObj()))
        run.write(m, "_start_tasks_for_iterables", Native("_start_tasks_for_iterables", lambda r, a, k: start_all(r, None, a, k)))
        run.call(run.getattr_(m, "__init__"), [fn, *srcs], {"alpha": alpha})
        run.prove(len(exhausted) == 1 and len(started) == 1, "the sources are read once")
        for a, k in started:
            run.prove(len(a) == 1 and a[0] is srcs[0] and not k, "the caller's sources")
        kws = m.fields["_wrapped_func_kwargs"]
        run.prove(set(kws.entries) == {"alpha"}, "the mapping's keywords")
        prove_same(run, kws.entries["alpha"][1], alpha, "the caller's keyword")
        t0 = len(run.trace)
        out = outcome_of(run, lambda: run.await_(run.call(m.fields["_wrapped_func"], [key], {"alpha": alpha})))
        us = [e for e in run.trace[t0:] if e[0] == "user"]
        run.prove(len(us) == 1 and us[0][1] is fn, "the caller's function runs exactly once")
        for u in us:
            run.prove(len(u[2]) == 1 and set(u[3]) == {"alpha"}, "the key and the keywords")
            if u[2]:
                prove_same(run, u[2][0], key, "the key is the argument")
            prove_same(run, u[3].get("alpha"), alpha, "the keyword")
        uo = user_outcome(run, fn)
        run.cover("returns" if uo[0] == "ret" else "raises")
        prove_outcome(run, out, uo, "the outcome is the function's own")


class Clear(Contract):
    """clear, close, _if_pop_clear, del, pop at g"""

    assumes = ASSUMES
    must_cover = ("emptied",)

    def __init__(self, op):
        self.op = op
        self.functions = [TM + op] + ([TM + "clear", TM + "pop"] if op != "pop" else [])
        self.name = op

    def rely(self, run):
        run.event("suspended", B(run, "has"))

    def invariants(self, run, loop_id, st, fr, cur):
        if getattr(run, "keys", None) is not None:
            yield from pairs(run)

    def run(self, run):
        k = kinit(run)
        install_keys(run)
        m = run.new(Obj(run.world.fn(T_ + "TaskMapping")))
        run.write(m, "#dict", Storage(run))
        run.write(m, "_init_loader", None if run.fork("no loader", "loader") == 0 else Loader(self))
        run.write(m, "concurrency", None)
        run.summaries[TM + "keys"] = lambda r, f, a, kw: LiveView(m.fields["#dict"], 0)
        has0, t0 = B(run, "has"), run.gget("task")
        if self.op == "_if_pop_clear":
            pop = run.fork("not popping", "popping") == 1
            out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(m, self.op), [pop], {})))
            run.prove(out[0] == "ret", "it returns")
            if pop:
                run.cover("emptied")
                run.prove(z3.Not(B(run, "has")), "no key is left")
                run.prove(all(run.holds(z3.Not(e[1])) for e in run.trace if e[0] == "suspended"), "and none is when others run again")
                run.prove(run.truth_term(run.getattr_(m, "_destroyed")) is True, "it counts as consumed")
            else:
                run.prove(z3.And(B(run, "has") == has0, run.gget("task") == t0), "nothing is popped")
            return
        if self.op == "clear":
            out = outcome_of(run, lambda: run.call(run.getattr_(m, "clear"), [], {"cancel": run.fork("leave", "cancel") == 1}))
            run.prove(out[0] == "ret", "it returns")
            run.cover("emptied")
            run.prove(z3.Not(B(run, "has")), "no key is left")
            return
        if self.op == "close":
            out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(m, "close"), [], {})))
            run.prove(out[0] == "ret", "it returns")
            run.cover("emptied")
            run.prove(z3.Not(B(run, "has")), "no key is left")
            return
        default = run.fork("no default", "default") == 1
        d = run.fresh("default")
        d.model = KTASK
        present = run.branch(B(run, "has"))
        out = outcome_of(run, lambda: run.call(run.getattr_(m, "pop"), [k.g] + ([d] if default else []), {}))
        run.prove(z3.Not(B(run, "has")), "the key is gone")
        if present:
            run.cover("emptied")
            run.prove(out[0] == "ret", "its task is given")
            if out[0] == "ret":
                run.prove(run.to_V(out[1]) == t0, "its own task")
        elif default:
            prove_outcome(run, out, ("ret", d), "the default")
        else:
            prove_exc(run, out, "KeyError", "there is no such key")


class Gather(Contract):
    """gather: all keys, when all are there, by C13's contract"""

    functions = [TM + "gather"]
    name = "gather of a mapping"
    must_cover = ("gathered", "failed", "empty")
    assumes = ("a_sync.gather of a mapping: C13",)

    def rely(self, run):
        interfere(run)

    def loader_result(self, run):
        if run.branch(run.keys.lfail):
            self.failure = self.lerr
            raise PyExc(self.lerr)

    def run(self, run):
        self.failure = None
        k = kinit(run)
        install_keys(run)
        self.lerr = user_error(run, "loader_error")
        m = run.new(Obj(run.world.fn(T_ + "TaskMapping")))
        run.write(m, "#dict", Storage(run))
        k.loader = run.fork("no loader", "loader") == 1
        facts(run)
        run.write(m, "_init_loader", Loader(self) if k.loader else None)
        calls = []
        res = run.fresh("gathered")

        def gather(r, f, a, kw):
            calls.append((list(a), dict(kw), B(r, "has"), B(r, "popped"), B(r, "ld")))
            return Coro(lambda: res, "gather", list(a), dict(kw), f)

        run.summaries["a_sync.asyncio.gather:gather"] = gather
        fn = unwrapped(run, run.class_attr(m.cls, "gather"))
        kw = {}
        given = {}
        for n in ("return_exceptions", "exclude_if", "tqdm", "desc"):
            if run.fork("no " + n, n) == 1:
                given[n] = kw[n] = run.fresh(n)
        out = outcome_of(run, lambda: run.await_(run.call(fn, [m], kw)))
        if self.failure is not None:
            run.cover("failed")
            prove_outcome(run, out, ("exc", self.failure), "a source's failure is raised as it is")
            return
        if not calls:
            run.cover("empty")
            prove_exc(run, out, "MappingIsEmptyError", "there is nothing to gather")
            run.prove(z3.Not(B(run, "has")), "only if there is no key")
            return
        run.cover("gathered")
        prove_outcome(run, out, ("ret", res), "what gather gives")
        run.prove(len(calls) == 1, "gathered once")
        for a, kw2, has, popped, ld in calls:
            run.prove(len(a) == 1 and a[0] is m, "the mapping itself")
            for n, v in given.items():
                run.prove(n in kw2 and kw2[n] is v, "the caller's options")
            for n, v in kw2.items():
                run.prove(n in given or v is {"return_exceptions": False, "exclude_if": None, "tqdm": False}.get(n, UNSET), "no other options")
            if k.loader:
                run.prove(z3.Implies(k.insource, has), "every key of the sources is there by then")


class NextKey(Contract):
    """_wait_for_next_key: waits for the next keys or the end of the loader, whichever is first, and raises what fails"""

    functions = [TM + "_wait_for_next_key"]
    name = "_wait_for_next_key"
    must_cover = ("woken", "failed")
    assumes = ("asyncio.wait with FIRST_COMPLETED returns when one of its tasks is done, and which are done (asyncio)",)

    def run(self, run):
        m = run.new(Obj(run.world.fn(T_ + "TaskMapping")))
        loader, nxt = run.fresh("loader"), ("next keys",)
        made, waits = [], []
        self.failed = None

        class T(Val):
            cls = Loader.cls

            def __init__(s, what):
                s.what = what

            def truth(s, r):
                return True

            def isawaitable(s, r):
                return True

            def await_(s, r):
                r.prove(s in waits[0][2] if waits else False, "only what is done is awaited")
                if r.fork(s.what + " went well", s.what + " failed") == 1:
                    self.failed = user_error(r, s.what + "_error")
                    raise PyExc(self.failed)

        ld = T("loader")

        def create(r, f, a, k):
            c = a[0] if a else dict(k).get("coro")
            r.prove(c is nxt, "the task waits for the next keys")
            made.append(T("next"))
            return made[-1]

        for n in ("create_task", "ccreate_task", "ccreate_task_simple"):
            run.summaries["a_sync.asyncio.create_task:" + n] = create

        def ext_call(r, f, a, k):
            if f.path in ("asyncio.wait", "asyncio.tasks.wait"):
                fs = r.concrete_iter(a[0])
                rw = k.get("return_when")
                how = r.fork("keys", "the end", "both")
                done = [x for x in fs if x is ld and how in (1, 2) or x in made and how in (0, 2)]
                waits.append((fs, rw, done, k.get("timeout")))
                return Coro(lambda: (r.new(SetObj([(True, x) for x in done])), r.new(SetObj([(True, x) for x in fs if x not in done]))), "wait", list(a), dict(k), None)
            return UNSET

        run.hooks["ext_call"] = ext_call
        run.write(m, "_init_loader", ld)
        run.write(m, "_init_loader_next", Native("_init_loader_next", lambda r, a, k: nxt))
        out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(m, "_wait_for_next_key"), [], {})))
        run.prove(len(waits) == 1 and len(made) == 1, "one wait")
        for fs, rw, done, timeout in waits:
            run.prove(len(fs) == 2 and ld in fs and made[0] in fs, "for the next keys and the loader")
            run.prove(rw == "FIRST_COMPLETED" or getattr(rw, "pyobj", None) == "FIRST_COMPLETED", "for the first of them")
            run.prove(timeout is None, "however long it takes")
        if self.failed is not None:
            run.cover("failed")
            prove_outcome(run, out, ("exc", self.failed), "what failed is raised as it is")
        else:
            run.cover("woken")
            run.prove(out[0] == "ret", "it returns")


def contracts():
    out = [GetItem(), RunOnce(), NextKey(), Gather()] + [Clear(o) for o in ("clear", "_if_pop_clear", "close", "pop")]
    out += [YieldKeys(k, p) for k in ("async", "sync") for p in (False, True)]
    out += [StartAll(f) for f in ("_start_tasks_for_iterables", "_tasks_for_iterables")]
    out += [AIter(p, s) for p in (False, True) for s in ("loader", "none")] + [Keys_(p, s) for p in (False, True) for s in ("loader", "none")]
    out += [View(w, p, s) for w in ("items", "values") for p in (False, True) for s in ("loader", "none")]
    out += [Completed(p) for p in (False, True)]
    out += [Map(p, s, y) for p in (False, True) for s, y in (("loader", "both"), ("none", "keys"), ("given", "both"))]
    return out
