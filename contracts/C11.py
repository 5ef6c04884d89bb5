"""Processing queues.

The worker: one arbitrary iteration of its endless loop, from an arbitrary state, over an arbitrary item (asyncio.Queue.get gives what _get gives):
the function is called exactly once, with the item's arguments; its outcome, and nothing else, is given to the item's future; the item is counted
as finished exactly once, after that; and nothing but the cancellation of the worker itself ends the loop.
Putting: exactly the caller's arguments and the very future that is returned are put, once.  The workers: exactly num_workers of them."""
from .queues import *
from pyvc.engine import StarTuple

Q = "a_sync.primitives.queue:"
PQ = Q + "ProcessingQueue."
WORKER = [PQ + n for n in ("__worker_coro", "_process", "_settle")] + [Q + "_current_task_is_cancelling"]
KINDS = {"with results": "ProcessingQueue", "without results": "ProcessingQueue", "priority": "PriorityProcessingQueue", "smart": "SmartProcessingQueue"}


class Func(Val):
    """the worker function: a call of it and then an await, an arbitrary outcome"""

    def __init__(self, c):
        self.c = c
        self.cls = Ext("types.FunctionType", __import__("types").FunctionType)

    def truth(self, run):
        return True

    def iscoroutinefunction(self, run):
        return True

    def getattr(self, run, name):
        if name in ("__name__", "__qualname__", "__doc__", "__module__"):
            return "func"
        return UNSET

    def call(self, run, a, k):
        run.event("func", list(a), dict(k))
        return Coro(lambda: self.body(run), "func", list(a), dict(k), self)

    def body(self, run):
        run.rely()
        run.event("func-runs")
        how = run.fork("it returns", "it fails", "it is cancelled itself", "the worker is cancelled")
        if how == 0:
            r = run.fresh("result")
            run.event("func-ends", "set_result", r)
            return r
        if how == 1:
            e = run.fresh_exc("error")
            run.assume(zbool(run.isinstance_(e, Ext("builtins.Exception", Exception))))
            run.event("func-ends", "set_exception", e)
            raise PyExc(e)
        self.c.cancelling = how == 3
        run.event("func-ends", "cancel" if how == 2 else "stop")
        run.raise_("CancelledError")


class FutRef(Val):
    """the item's future, as the worker has it: alive or gone, pending or done (cancelled by its user)"""

    def __init__(self, weak):
        self.weak = weak
        self.state = None

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if self.state is None:
            self.state = run.fork("future pending", "future done", *(["future gone"] if self.weak else []))
        if self.state == 2:
            run.raise_("ReferenceError", "weakly-referenced object no longer exists")
        if name in ("set_result", "set_exception", "cancel"):
            return Native(name, lambda r, a, k: self.settle(r, name, a))
        if name in ("done", "cancelled"):
            return Native(name, lambda r, a, k: self.state == 1)
        return UNSET

    def settle(self, run, name, a):
        if self.state == 1:
            if name == "cancel":
                return False
            run.raise_("InvalidStateError", "invalid state")
        run.event("settle", name, tuple(a))
        self.state = 1
        return True if name == "cancel" else None


class CurrentTask(Val):
    def __init__(self, c):
        self.c = c

    def getattr(self, run, name):
        if name == "cancelling":
            return Native(name, self.cancelling)
        return UNSET

    def cancelling(self, run, a, k):
        n = run.fresh("cancelling", "int")
        run.assume(n.t >= 1 if self.c.cancelling else n.t == 0)
        return n


class Worker(Contract):
    functions = WORKER
    assumes = (
        "asyncio.Queue.get waits for an item and gives what _get gives, each item to one getter",
        "the function fails with an Exception, or with CancelledError: its own, or because the worker is cancelled, which Task.cancelling() tells apart",
        "a future that is done refuses set_result / set_exception with InvalidStateError; a dead weak proxy raises ReferenceError",
    )

    def __init__(self, kind):
        self.kind = kind
        self.name = f"worker of a queue {kind}"
        self.must_cover = ["processed", "stopped"] + (["skipped"] if kind == "smart" else [])

    def run(self, run):
        self.cancelling = False
        cls = run.world.fn(Q + KINDS[self.kind])
        q = self.q = run.new(Obj(cls))
        f = q.fields
        f["func"] = Func(self)
        f["_no_futs"] = self.kind == "without results"
        f["num_workers"] = run.fresh("num_workers", "int")
        f["_name"] = "name"
        f["_unfinished_tasks"] = run.fresh("unfinished", "int")
        self.stopping = False

        def get(r, a, k):
            return Coro(lambda: self.item(r), "get", list(a), {}, None)

        def ext_call(r, f, a, k):
            leaf = f.path.split(".")[-1]
            own = f.path.split(".")[-2:-1]
            if own and own[0] in ("Queue", "_Queue") and a and a[0] is q:
                if leaf == "get":
                    return get(r, a, k)
                if leaf == "task_done":
                    return r.event("task_done")
                raise Unsupported(f"{f.path} in the worker")
            if leaf == "current_task":
                return CurrentTask(self)
            return UNSET

        run.hooks["ext_call"] = ext_call
        run.hooks["super"] = to_external
        coro = run.call(run.getattr_(q, "_ProcessingQueue__worker_coro"), [], {})
        out = outcome_of(run, lambda: run.await_(coro))
        run.cover("stopped")
        run.prove(out[0] == "exc", "a worker never ends of itself")
        run.prove(self.stopping or self.cancelling, "only a worker that is cancelled stops")
        if out[0] == "exc":
            prove_exc(run, out, "CancelledError", "it stops with the cancellation")

    def item(self, run):
        run.rely()
        run.event("get")
        if run.fork("an item comes", "the worker is cancelled while it waits") == 1:
            self.stopping = True
            run.raise_("CancelledError")
        args, kwargs, check = sym_call_args(run)
        tail = args[-1]
        a = StarTuple(tail.seq, args[:-1])
        self.check = check
        k = run.new(DictObj({n: (True, v) for n, v in kwargs.items() if n != "**"}, kwargs["**"]))
        self.fut = None
        if self.kind == "without results":
            return (a, k)
        if self.kind == "smart":
            self.fut = FutRef(False) if run.fork("someone holds the future", "nobody does") == 0 else None
        else:
            self.fut = FutRef(self.kind != "priority")
        return run.list([a, k, self.fut]) if self.kind == "priority" else (a, k, self.fut)

    def iter_end(self, run, loop_id, st, fr, cur, x, trace):
        gets = [e for e in trace if e[0] == "get"]
        calls = [e for e in trace if e[0] == "func"]
        ends = [e for e in trace if e[0] == "func-ends"]
        done = [e for e in trace if e[0] == "task_done"]
        settled = [e for e in trace if e[0] == "settle"]
        run.prove(len(gets) == 1, "one item per round")
        run.prove(len(done) == 1, "the item is counted as finished exactly once")
        run.prove(not self.cancelling, "a worker that is cancelled does not go on")
        if self.kind == "smart" and self.fut is None:
            run.cover("skipped")
            run.prove(not calls and not settled, "an item nobody waits for is skipped")
            return
        run.cover("processed")
        run.prove(len(calls) == 1 and len(ends) == 1, "the function runs exactly once")
        for e in calls:
            self.check(run, e[1], e[2], "with the item's arguments")
        pos = {id(e): i for i, e in enumerate(trace)}
        for e in done:
            run.prove(all(pos[id(x)] < pos[id(e)] for x in ends + settled), "the item is finished when it is counted")
        if self.kind == "without results":
            run.prove(not settled, "there is nothing to settle")
            return
        run.prove(len(settled) <= 1, "a future is settled at most once")
        for e in settled:
            run.prove(ends != [] and e[1] == ends[0][1], "the future ends as the function did")
            want = ends[0][2:] if ends else ()
            run.prove(len(e[2]) == len(want), "with its outcome")
            for u, v in zip(e[2], want):
                prove_same(run, u, v, "with its very outcome")
        run.prove(self.fut.state is not None, "the future is offered the outcome")
        if not settled:
            run.prove(self.fut.state in (1, 2), "only a future that is done or gone gets nothing")


class NewFut(Val):
    def __init__(self, loop):
        self.loop = loop
        self.cls = Ext("asyncio.Future", __import__("asyncio").Future)

    def truth(self, run):
        return True


class Proxy(Val):
    def __init__(self, o):
        self.o = o


class Put(Contract):
    functions = [PQ + n for n in ("put", "put_nowait", "__call__", "_create_future", "_ensure_workers")]
    assumes = ("asyncio.Queue.put_nowait on a queue without maxsize puts the item and counts it", "loop.create_future gives a new pending future")

    def __init__(self, how, data):
        self.how, self.data = how, data
        self.name = f"{how}, {'with' if data else 'without'} results"
        self.must_cover = ("put", "closed", "broken")

    def run(self, run):
        rest_has_no_flags(run)
        cls = run.world.fn(Q + "ProcessingQueue")
        q = run.new(Obj(cls))
        f = q.fields
        f["func"] = Func(self)
        f["_no_futs"] = not self.data
        f["_name"] = "name"
        f["num_workers"] = run.fresh("num_workers", "int")
        f["_unfinished_tasks"] = run.fresh("unfinished", "int")
        closed = run.fork("open", "closed") == 1
        if closed:
            f["_closed"] = True
        w = Workers(run)
        f["_workers"] = w
        puts, futs = [], []
        run.hooks["weakref_proxy"] = lambda r, a: Proxy(a[0])

        def create(r, loop, a, k):
            x = NewFut(loop)
            futs.append(x)
            return x

        run.hooks["loop_create_future"] = create
        run.hooks["loop_running"] = True  # the workers need one

        def ext_call(r, f, a, k):
            leaf, own = f.path.split(".")[-1], f.path.split(".")[-2:-1]
            if own and own[0] in ("Queue", "_Queue") and a and a[0] is q and leaf == "put_nowait":
                puts.append(a[1])
                return None
            return UNSET

        run.hooks["ext_call"] = ext_call
        run.hooks["super"] = to_external
        args, kwargs, check = sym_call_args(run)
        call = (lambda: run.call(q, args, kwargs)) if self.how == "call" else (lambda: run.call(run.getattr_(q, self.how), args, kwargs))
        out = outcome_of(run, (lambda: run.await_(call())) if self.how == "put" else call)
        if closed:
            run.cover("closed")
            prove_exc(run, out, "RuntimeError", "a closed queue takes nothing")
            run.prove(puts == [], "nothing is put")
            return
        if w.broken is not None:
            run.cover("broken")
            prove_outcome(run, out, ("exc", w.broken), "what broke the workers is raised")
            run.prove(puts == [], "nothing is put")
            return
        run.cover("put")
        run.prove(out[0] == "ret", "an open queue takes it")
        run.prove(len(puts) == 1, "one item is put")
        for p in puts:
            ok = isinstance(p, tuple) and len(p) == (3 if self.data else 2)
            run.prove(ok, "arguments, keywords and, if there are results, a future")
            if ok:
                a, k = p[:2]
                a = (*a.prefix, StarArgs(a.seq)) if isinstance(a, StarTuple) else tuple(a)
                check(run, list(a), kw_of(run, k), "exactly the caller's arguments")
                if self.data:
                    run.prove(isinstance(p[2], Proxy) and p[2].o is out[1], "the future that is returned is the one that will be settled")
        if self.data:
            run.prove(len(futs) == 1 and out[1] is futs[0], "a new future is returned")
        else:
            run.prove(out[1] is None and not futs, "nothing is returned")


def kw_of(run, k):
    if not isinstance(k, DictObj):
        raise Unsupported(f"keywords {k!r}")
    d = {n: v for n, (p, v) in k.entries.items()}
    if k.rest is not None:
        d["**"] = k.rest
    return d


class Workers(Val):
    """the main task of the workers; broken: the exception one of them, or the main task, died of"""

    def __init__(self, run):
        self.broken = None
        self.dead = run.fork("workers live", "a worker is dead", "the main task is dead")
        if self.dead:
            self.broken = run.fresh_exc("worker_error")

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name == "done":
            return Native(name, lambda r, a, k: self.dead != 0)
        if name == "exception":
            return Native(name, lambda r, a, k: self.broken)
        if name == "_workers":
            return run.list([OneWorker(self, False), OneWorker(self, self.dead == 1)])
        return UNSET


class OneWorker(Val):
    def __init__(self, w, dead):
        self.w, self.dead = w, dead

    def getattr(self, run, name):
        if name == "done":
            return Native(name, lambda r, a, k: self.dead)
        if name == "exception":
            return Native(name, lambda r, a, k: self.w.broken)
        return UNSET


class Made(Val):
    cls = Ext("asyncio.Task", __import__("asyncio").Task)

    def __init__(self, run, coro):
        self.coro = coro
        self.attrs = {}

    def truth(self, run):
        return True

    def getattr(self, run, name):
        return self.attrs.get(name, UNSET)

    def setattr(self, run, name, v):
        self.attrs[name] = v


class Start(Contract):
    """exactly num_workers workers are started, each of them runs the loop above"""

    functions = [PQ + "__init__", PQ + "_workers", PQ + "name"]
    assumes = ("create_task: C15's contract", "asyncio.gather awaits all of its arguments")

    def __init__(self, kind):
        self.kind = kind
        self.name = f"the workers of a queue {kind}"
        self.must_cover = ("started",)

    def run(self, run):
        n = run.fresh("num_workers", "int")
        run.assume(n.t >= 0)
        self.n = n
        func = Func(self)
        inits = []
        self.created = []
        main = []

        def ext_call(r, f, a, k):
            leaf, own = f.path.split(".")[-1], f.path.split(".")[-2:-1]
            if own and own[0] in ("Queue", "_Queue") and leaf == "__init__":
                r.prove(len(a) <= 1 and not k, "the queue has no maximum size")
                inits.append(a)
                a[0].fields["_unfinished_tasks"] = 0
                return None
            if leaf == "gather":
                return ("gathered", list(a))
            if leaf == "WeakValueDictionary":
                return r.new(DictObj())
            return UNSET

        def create(r, f, a, k):
            k = dict(k)
            coro = a[0] if a else k["coro"]
            t = Made(r, coro)
            if isinstance(coro, tuple):
                main.append(coro)
            else:
                r.event("created", coro)
                self.created.append(coro)
            return t

        run.hooks["ext_call"] = ext_call
        run.hooks["super"] = to_external
        run.summaries["a_sync.asyncio.create_task:create_task"] = create
        loops = []
        run.summaries[PQ + "__worker_coro"] = lambda r, f, a, k: Coro(lambda: loops.append(a[0]), "worker", list(a), {}, None)
        run.summaries["a_sync.primitives.queue:ProcessingQueue._ProcessingQueue__worker_coro"] = run.summaries[PQ + "__worker_coro"]
        kw = {"return_data": False} if self.kind == "without results" else {}
        if run.fork("no name", "a name") == 1:
            kw["name"] = "queue"
        q = self.q = run.call(run.world.fn(Q + KINDS[self.kind]), [func, n], kw)
        f = q.fields
        run.prove(len(inits) == 1, "it is an asyncio queue")
        run.prove(run.getattr_(q, "func") is func, "the function is kept")
        run.prove(run.getattr_(q, "num_workers") is n, "the number of workers is kept")
        nf = run.getattr_(q, "_no_futs")
        run.prove(run.truth_term(nf) is (self.kind == "without results"), "results are kept unless not wanted")
        w = run.getattr_(q, "_workers")
        run.cover("started")
        run.prove(isinstance(w, Made) and len(main) == 1 and w.coro is main[0], "one main task")
        run.prove(run.getattr_(q, "_workers") is w, "started once")
        l = w.attrs.get("_workers") if isinstance(w, Made) else None
        run.prove(isinstance(l, ListObj), "it knows its workers")
        if isinstance(l, ListObj):
            run.prove((z3.Length(l.seq) if l.items is None else z3.IntVal(len(l.items))) == n.t, "exactly num_workers of them")
            for _, a in main:
                run.prove(len(a) == 1 and isinstance(a[0], StarArgs) and (a[0].seq is l or getattr(a[0].seq, "seq", None) is l.seq) or (l.items is not None and list(a) == list(l.items)), "the main task awaits all of them")

    def invariants(self, run, loop_id, st, fr, cur):
        for i, l in enumerate(local_lists(run, fr)):
            yield f"list {i} filled one by one", lambda l=l: z3.And(cur.i >= 0, z3.Length(seq_of(run, l)) == cur.i)
        yield "range", lambda: z3.And(cur.i >= 0, cur.i <= self.n.t)

    def iter_end(self, run, loop_id, st, fr, cur, x, trace):
        made = [e for e in trace if e[0] == "created"]
        run.prove(len(made) == 1, "one worker is started per turn")
        for e in made:
            c = e[1]
            ok = isinstance(c, Coro)
            run.prove(ok, "it is a worker coroutine")
            if ok:
                t0 = len(run.trace)
                got = []
                run.summaries[PQ + "__worker_coro"] = lambda r, f, a, k: Coro(lambda: got.append(a[0]), "worker", list(a), {}, None)
                run.await_(c)
                run.prove(len(got) == 1 and got[0] is self.q, "it runs the queue's worker loop, once")


def contracts():
    out = [Worker(k) for k in KINDS]
    out += [Put(h, d) for h in ("put_nowait", "put", "call") for d in (True, False)]
    out += [Start(k) for k in ("with results", "without results", "priority", "smart")]
    return out
