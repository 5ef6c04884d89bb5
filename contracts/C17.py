"""Merging asynchronous iterators.

exhaust_iterator puts item(0), item(1), ... of its source, in order, each once (loop invariant), until the source ends or fails.
exhaust_iterators does this once for every source (known at a generic one), all of them to their end, and then either fails with a failure
or marks the end of the queue.
as_yielded starts exactly one task for all its sources, and yields what is in the queue: h(0), h(1), ... are the items put, in the order they were
put, whoever put them.  Invariant: y items were yielded, they are F(y), and y of them were taken.  It ends with the mark, or raises what the
task failed with, which its done callback (the real code) has put."""
from .C16 import SrcCursor, Source, Streams, item, user_error, F, SeqV, PLAIN, CONSUMER
from .collect import *
from pyvc.engine import StarTuple

U = "a_sync.utils.iterators:"

h = z3.Function("put_item", z3.IntSort(), V)
FH = z3.Function("FH", z3.IntSort(), SeqV)


class PutQueue(Val):
    cls = Ext("asyncio.Queue", __import__("asyncio").Queue)

    def __init__(self, put):
        self.put = put

    def truth(self, run):
        return run.fresh("queue_truth", "bool").t

    def getattr(self, run, name):
        if name == "put_nowait":
            return Native(name, lambda r, a, k: self.put(r, a[0]))
        if name == "join":
            return Native(name, lambda r, a, k: Join(self))
        return UNSET


class Join(Val):
    def __init__(self, q):
        self.q = q

    def isawaitable(self, run):
        return True

    def await_(self, run):
        run.event("join", self.q)
        run.rely()


class ExhaustOne(Streams):
    functions = [U + "exhaust_iterator"]
    mode = "async"
    must_cover = ("ended", "source failed")

    def __init__(self, queue):
        self.queue = queue
        self.name = f"exhaust_iterator {'into a queue' if queue else 'without a queue'}"

    def run(self, run):
        self.prepare(run, True)
        kw = {}
        if self.queue:
            kw["queue"] = PutQueue(lambda r, x: r.list_append(self.out, x))
        elif run.fork("absent", "None") == 1:
            kw["queue"] = None
        fn = run.world.fn(self.functions[0])
        out = outcome_of(run, lambda: run.await_(run.call(fn, [self.src.val], kw)))
        if self.queue:
            self.judge(run, out)
            return
        run.prove(self.src.pos(run) == self.src.n, "the source is consumed to its end")
        if out[0] == "ret":
            run.cover("ended")
            run.prove(z3.Not(self.src.fails), "it ends only if the source does")
        else:
            run.cover("source failed")
            prove_same(run, out[1], self.src.err, "the source's failure is raised as it is")


def exhausting(run, a):
    """exhaust_iterator's contract: it returns None or raises the source's failure"""
    run.event("user", a[0])
    run.rely()
    if run.fork("the source ends", "the source fails") == 1:
        e = run.fresh_exc("source_error")
        run.event("user-exc", a[0], e)
        raise PyExc(e)


class ExhaustAll(Contract):
    functions = [U + "exhaust_iterators"]
    assumes = (
        "asyncio.gather as in contracts/collect.py: with return_exceptions it waits for all, and gives the results and exceptions in input order",
        "collections of n >= 1 elements are known at one generic element (pyvc/coll.py)",
    )

    def __init__(self, queue, kind):
        self.queue, self.kind = queue, kind
        self.name = f"exhaust_iterators of any {kind} of sources, {'with' if queue else 'without'} a queue"
        self.must_cover = ("nothing", "all ended", "one failed") + (() if queue else ("join without queue",))

    def run(self, run):
        install(run)
        started = []

        def exhaust(r, f, a, k):
            started.append((list(a), dict(k)))
            return Coro(lambda: exhausting(r, a), "exhaust_iterator", list(a), dict(k), None)

        run.summaries[U + "exhaust_iterator"] = exhaust
        c, s = some_awaitables(run, self.kind)
        if s is not None:
            s.model = None
        puts = []
        kw = {}
        q = None
        if self.queue:
            q = kw["queue"] = PutQueue(lambda r, x: puts.append((x, len(r.trace))))
        join = False
        j = run.fork("join absent", "join False", "join True")
        if j:
            join = kw["join"] = j == 2
        fn = run.world.fn(self.functions[0])
        out = outcome_of(run, lambda: run.await_(run.call(fn, [c if c is not None else (run.list([]) if self.kind == "list" else ())], kw)))
        if join and not self.queue:
            run.cover("join without queue")
            prove_exc(run, out, "ValueError", "joining without a queue is refused")
            run.prove(not started, "nothing is consumed")
            return
        joins = [e for e in run.trace if e[0] == "join"]
        users = [e for e in run.trace if e[0] == "user"]
        exc = [e for e in run.trace if e[0] == "user-exc"]
        if c is None:
            run.cover("nothing")
            run.prove(not started, "nothing is exhausted")
        else:
            run.prove(len(started) == 1 and len(users) == 1, "each source is exhausted exactly once")
            for a, k in started:
                run.prove(len(a) >= 1 and set(k) <= {"queue"} and len(a) <= 1, "the source is handed on")
                if a:
                    prove_same(run, a[0], s, "the source itself is exhausted")
                run.prove(k.get("queue") is q, "into the caller's queue")
        if exc:
            run.cover("one failed")
            prove_outcome(run, out, ("exc", exc[0][2]), "a source's failure is raised as it is")
            run.prove(puts == [] and joins == [], "no end is marked")
            return
        run.prove(out[0] == "ret", "it ends normally")
        if c is not None:
            run.cover("all ended")
        if q is None:
            run.prove(puts == [] and joins == [], "no queue, no mark")
            return
        run.prove(len(puts) == 1, "the end is marked once")
        for x, at in puts:
            run.prove(isinstance(x, Obj) and x.cls.qualname == U + "_Done" and run.getattr_(x, "_exc") is None, "the mark carries no failure")
            run.prove(all(i < at for i, e in enumerate(run.trace) if e[0] == "user"), "the end is marked after all sources have ended")
        run.prove(len(joins) == (1 if join else 0), "the queue is joined if asked for")


class Item:
    """what a source yielded: never the private mark"""

    def isinstance(self, run, o, c):
        if isinstance(c, Cls) and c.qualname == U + "_Done":
            return False
        return None

    def isawaitable(self, run, o):
        return run.fresh("isawaitable", "bool").t


ITEM = Item()


class Batch(Val):
    """what get_all gave: items [lo, hi) of those put, then the mark, if it was there"""

    def __init__(self, c, lo, hi, mark):
        self.c, self.lo, self.hi, self.mark = c, lo, hi, mark

    def truth(self, run):
        return True

    def iterator(self, run):
        return BatchCursor(self)


class BatchCursor:
    def __init__(self, b):
        self.b = b
        self.given = False

    def begin(self, run):
        run.gset("bi", SInt(self.b.lo))
        run.gset("marked", SBool(z3.BoolVal(False)))

    def havoc(self, run):
        pass

    advance = finish = havoc

    def candidates(self, run):
        b = self.b
        bi = lambda: run.gget("bi").t
        yield "lo <= bi <= hi", lambda: z3.And(bi() >= b.lo, bi() <= b.hi)
        yield "yielded = bi", lambda: run.gget("y").t == bi()
        yield "task_done = bi", lambda: run.gget("td").t == bi()
        yield "not marked", lambda: z3.Not(run.gget("marked").t)

    def more(self, run):
        b = self.b
        i = run.gget("bi").t
        if run.branch(i < b.hi):
            run.gset("bi", SInt(i + 1))
            self.x = SV(h(i))
            self.x.model = ITEM
            run.assume(FH(i + 1) == z3.Concat(FH(i), z3.Unit(h(i))))
            return True
        if b.mark is not None and not run.branch(run.gget("marked").t):
            run.gset("marked", SBool(z3.BoolVal(True)))
            self.x = b.mark
            return True
        return False

    def element(self, run):
        return self.x


class ItemQueue(Val):
    """the queue, by the contract C10 proves: get_all waits until there is something and takes what is there, in the order it was put"""

    def __init__(self, c):
        self.c = c

    def truth(self, run):
        return run.fresh("queue_truth", "bool").t

    def getattr(self, run, name):
        c = self.c
        if name == "get_all":
            return Native(name, lambda r, a, k: GetAll(c))
        if name == "task_done":
            return Native(name, lambda r, a, k: self.task_done(r))
        if name == "put_nowait":
            return Native(name, lambda r, a, k: c.put(r, a[0]))
        if name == "empty":
            return Native(name, lambda r, a, k: True if c.mark_taken(r) else r.fresh("empty", "bool"))
        return UNSET

    def task_done(self, run):
        t = run.gget("td").t
        run.prove(t < run.gget("taken").t + (1 if self.c.mark_taken(run) else 0), "task_done at most once per item taken")
        run.gset("td", SInt(t + 1))


class GetAll(Val):
    def __init__(self, c):
        self.c = c

    def isawaitable(self, run):
        return True

    def await_(self, run):
        c = self.c
        run.prove(not c.mark_taken(run), "nothing is waited for after the end")
        run.rely()
        lo = run.gget("taken").t
        how = run.fork("items", "the sources have ended", "the task failed", "the task was cancelled", "the consumer is cancelled")
        if how == 4:
            c.how = "consumer"
            run.raise_("CancelledError")
        puts = run.fresh("puts", "int").t
        run.assume(puts >= lo)
        run.assume(puts >= run.gget("puts").t)
        run.gset("puts", SInt(puts))
        mark = None
        if how == 0:
            # what is there, or the first item that comes: some of what was put
            hi = run.fresh("hi", "int").t
            run.assume(z3.And(hi > lo, hi <= puts))
            run.gset("taken", SInt(hi))
            return Batch(c, lo, hi, None)
        elif how == 1:
            mark = run.call(run.world.fn(U + "_Done"), [], {})
            c.marks += 1
        else:
            c.how = ("failed", "cancelled")[how - 2]
            c.mark = None
            for cb in c.callbacks:
                run.call(cb, [c.task], {})
            run.prove(c.marks == 1, "the failure of the task marks the end once")
            mark = c.mark
            if mark is None:
                raise PathEnd()
        if how == 1:
            c.how = "ended"
            for cb in c.callbacks:  # joined: the task ends without a failure while the end is taken
                run.call(cb, [c.task], {})
            run.prove(c.marks == 1, "a task that ended well adds no mark")
        run.gset("taken", SInt(puts))
        return Batch(c, lo, puts, mark)


class TaskVal(Val):
    cls = Ext("asyncio.Task", __import__("asyncio").Task)

    def __init__(self, c):
        self.c = c

    def truth(self, run):
        return True

    def getattr(self, run, name):
        c = self.c
        if name == "add_done_callback":
            return Native(name, lambda r, a, k: c.callbacks.append(a[0]))
        if name == "cancelled":
            return Native(name, lambda r, a, k: c.how == "cancelled")
        if name == "done":
            return Native(name, lambda r, a, k: c.how is not None)
        if name == "exception":
            return Native(name, lambda r, a, k: r.raise_("CancelledError") if c.how == "cancelled" else (c.err if c.how == "failed" else None))
        return UNSET


class Merge(Contract):
    functions = [U + "as_yielded", U + "_Done.__init__", U + "_Done._tb"]
    assumes = (
        "the queue: contract of C10 (get_all waits until there is something and takes items from the front, in the order they were put)",
        "the task runs exhaust_iterators to its end (contracts above); the mark is the last thing it puts, and a task that failed or was cancelled put none",
        "the done callback runs once, after the task is done (asyncio)",
        "traceback.clear_frames only drops the locals of finished frames",
        "users' items are no instances of the private _Done; the populating task is not cancelled after it has marked the end",
    )
    must_cover = ("ended", "failed", "cancelled", "consumer")
    name = "as_yielded of any number of sources"

    def mark_taken(self, run):
        return self.marks > 0

    def put(self, run, x):
        ok = isinstance(x, Obj) and x.cls.qualname == U + "_Done"
        run.prove(ok, "only marks are put")
        if ok:
            self.marks += 1
            self.mark = x

    def invariants(self, run, loop_id, st, fr, cur):
        if not hasattr(self, "out"):
            return
        y = lambda: run.gget("y").t
        g = lambda n: run.gget(n).t
        yield "y >= 0", lambda: y() >= 0
        yield "out = FH(y)", lambda: self.out.seq == FH(y()) if self.out.items is None else False
        yield "y = taken", lambda: y() == g("taken")
        yield "td = taken", lambda: g("td") == g("taken")
        yield "taken <= puts", lambda: g("taken") <= g("puts")

    def run(self, run):
        self.how, self.marks, self.mark, self.callbacks, self.made = None, 0, None, [], []
        self.err = user_error(run, "task_error")
        self.task = TaskVal(self)
        self.out = run.list([])
        run.write(self.out, "#", (None, z3.Empty(SeqV)))
        run.assume(FH(0) == z3.Empty(SeqV))
        for n in ("y", "td", "taken", "puts"):
            run.gset(n, SInt(z3.IntVal(0)))
        queues = []
        run.hooks["ext_call"] = lambda r, f, a, k: None if f.path == "traceback.clear_frames" else UNSET

        def new_queue(r, c, a, k):
            r.prove(not a and not k, "the queue is unbounded")
            q = ItemQueue(self)
            queues.append(q)
            return q

        def create(r, f, a, k):
            k = dict(k)
            coro = a[0] if a else k.get("coro")
            r.prove(isinstance(coro, tuple) and coro[:1] == ("exhausting all",), "the task exhausts the sources")
            self.made.append(coro)
            return self.task

        def exhaust_all(r, f, a, k):
            k = dict(k)
            names = ["iterators"]
            its = a[0] if a else k.get("iterators")
            return ("exhausting all", its, k.get("queue"), k.get("join"))

        run.summaries.update({"new:a_sync.primitives.queue:Queue": new_queue, U + "exhaust_iterators": exhaust_all})
        for n in ("create_task", "ccreate_task", "ccreate_task_simple"):
            run.summaries["a_sync.asyncio.create_task:" + n] = create

        def note(r, a, k):
            y = r.gget("y").t
            r.gset("y", SInt(y + 1))
            r.list_append(self.out, a[0])
            r.rely()

        ns = user_module(run, CONSUMER, note=Native("note", note))
        args, kwargs, check = sym_call_args(run, kw=())
        it = run.call(run.world.fn(U + "as_yielded"), list(args), {})
        out = outcome_of(run, lambda: run.await_(run.call(ns["consume_async"], [it], {})))
        run.prove(len(queues) == 1 and len(self.made) == 1, "one queue, one task")
        for _, its, q, j in self.made:
            run.prove(q is queues[0], "the task puts into the queue that is read")
            if isinstance(its, StarTuple):
                its = (*its.prefix, StarArgs(its.seq))
            if not isinstance(its, tuple):
                raise Unsupported(f"the sources {its!r}")
            check(run, list(its), {"**": kwargs["**"], **{k: v for k, v in kwargs.items() if k != "**"}}, "exactly the caller's sources")
        y, puts = run.gget("y").t, run.gget("puts").t
        if self.how == "consumer":
            run.cover("consumer")
            prove_exc(run, out, "CancelledError", "the consumer's cancellation is passed on")
            return
        run.prove(self.how is not None, "it stops only when the sources have ended or failed")
        run.prove(y == puts, "every item put was yielded")
        run.prove(self.out.seq == FH(puts), "each once, in the order put")
        if self.how == "ended":
            run.cover("ended")
            run.prove(out[0] == "ret", "it ends normally")
        elif self.how == "failed":
            run.cover("failed")
            prove_outcome(run, out, ("exc", self.err), "the failure reaches the consumer as it is")
        elif self.how == "cancelled":
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", "the cancellation reaches the consumer")


def contracts():
    return [ExhaustOne(q) for q in (True, False)] + [ExhaustAll(q, k) for q in (True, False) for k in ("list", "tuple")] + [Merge()]
