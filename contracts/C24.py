"""Executors: run/submit of every class and mode; the pruning pool's accounting of threads, idle tokens and queued calls.

Accounting (PruningThreadPoolExecutor), for any number of threads and calls, at every moment:
  N threads of the pool, of which IDLE are blocked on (or on the way to) the queue having given an idle token, F have nothing to do but have not
  given one, the others are running a call; S tokens in the semaphore; Q calls in the queue, P of them or taken ones whose submission has not
  adjusted the threads yet.
  K: S <= max(0, IDLE - (Q - P))                      tokens stand for idle threads no queued call counts on
  J: Q - P + S <= IDLE + F  or  N == max workers      every queued call has a thread of its own without work, unless all threads are in use
  L: Q - P > 0 => N >= 1
Each step of a worker thread and of a submission preserves them while every other thread does arbitrary such steps."""
from .common import *

MOD = "a_sync.executor:"
FETCHING, IDLE, RUNNING, GONE = 0, 1, 2, 3
STATE = ("N", "IDLE", "F", "S", "Q", "P")


class Executors(Contract):
    functions = [MOD + "_AsyncExecutorMixin." + m for m in ("run", "submit", "sync_mode")] + [MOD + "AsyncThreadPoolExecutor.__init__", MOD + "AsyncProcessPoolExecutor.__init__", "a_sync.primitives._debug:_DebugDaemonMixin._start_debug_daemon"]
    assumes = (
        "concurrent.futures submit runs the callable once in a worker and its future gets the outcome; wrap_future passes it on",
        "a process pool's pickling round trip",
        "an exception set on an asyncio future is raised by awaiting it (StopIteration excepted)",
    )

    def __init__(self, cls, op):
        self.cls, self.op = cls, op
        self.name = f"{cls}.{op}"
        self.must_cover = ("synchronous fallback", "workers", "returns", "raises")

    def run(self, run):
        rest_has_no_flags(run)
        run.hooks["loop_running"] = True
        dbg = run.fork("no debug logs", "debug logs") == 1
        run.hooks["debug_logs"] = lambda r: dbg
        ext_submits = []

        def sup(r, s, name, exts):
            o = s.o
            if not any(e.path.split(".")[-1] in ("ThreadPoolExecutor", "ProcessPoolExecutor") for e in exts):
                return UNSET
            if name == "__init__":

                def init(r2, a, k):
                    n = a[0] if a else k.get("max_workers")
                    if n is None:
                        n = r2.fresh("cpus", "int")
                        r2.assume(n.t > 0)
                    elif r2.branch(zbool(r2.truth_term(r2.binop("LtE", n, 0))) if False else (n <= 0 if isinstance(n, int) else n.t <= 0)):
                        r2.raise_("ValueError", "max_workers must be greater than 0")
                    r2.write(o, "_max_workers", n)
                    r2.write(o, "_threads", r2.new(SetObj()))
                    r2.write(o, "_processes", r2.dict({}))
                    return None

                return Native("Executor.__init__", init)
            if name == "submit":

                def submit(r2, a, k):
                    ext_submits.append(a[0])
                    return r2.world.submit(r2, a, k)

                return Native("Executor.submit", submit)
            return UNSET

        run.hooks["super"] = sup
        fut = {}

        def mkfut(r, loop, a, k):
            f = r.new(SyncFut())
            return f

        run.hooks["loop_create_future"] = mkfut
        run.hooks["loop_create_task"] = lambda r, loop, a, k: r.event("create_task", a[0])
        run.hooks["user_exc"] = lambda r, e: r.assume(z3.Not(zbool(r.isinstance_(e, Ext("builtins.StopIteration", StopIteration)))))
        n = run.fresh("max_workers", "int")
        run.assume(n.t >= 0)
        ex = run.call(run.world.fn(MOD + self.cls), [n], {})
        zero = run.branch(n.t == 0)
        run.cover("synchronous fallback" if zero else "workers")
        fn = UserFn("fn", False)
        for turn in range(2):
            t0 = len(run.trace)
            args, kwargs, check_args = sym_call_args(run)
            out = outcome_of(run, lambda: run.call(run.getattr_(ex, self.op), [fn] + args, kwargs))
            if self.op == "run":
                run.prove(out[0] == "ret" and is_awaitable(run, out[1]), "run() returns an awaitable")
                run.prove(not user_runs(run)[turn:], "run() runs nothing before it is awaited")
            if out[0] == "ret":
                if not is_awaitable(run, out[1]):
                    run.prove(False, "the caller gets an awaitable")
                    return
                out = outcome_of(run, lambda: run.await_(out[1]))
            us = [e for e in run.trace[t0:] if e[0] == "user"]
            run.prove(len(us) == 1, "the callable runs exactly once")
            run.prove(len(ext_submits) == (0 if zero else turn + 1), "the pool is used exactly when there are workers")
            for u in us[:1]:
                run.prove(u[1] is fn, "it is the caller's callable")
                check_args(run, list(u[2]), u[3], "it gets the caller's arguments")
            uo = None
            for e in run.trace[t0:]:
                if e[0] in ("user-ret", "user-exc"):
                    uo = ("ret" if e[0] == "user-ret" else "exc", e[2])
            if uo:
                run.cover("returns" if uo[0] == "ret" else "raises")
                prove_outcome(run, out, uo, "the caller gets the callable's own outcome")
            if not uo or uo[0] == "exc":
                return


class SyncFut(Heap):
    def __init__(self):
        self.out = None
        self.cls = Ext("asyncio.Future", __import__("asyncio").Future)

    def locs(self):
        return {"out": self.out}

    def setloc(self, k, v):
        self.out = v

    def truth(self, run):
        return True

    def await_(self, run):
        run.rely()
        if self.out is None:
            raise Unsupported("awaiting a future nobody finishes")
        return settle(run, self.out)

    def getattr(self, run, name):
        def put(kind):
            def f(r, a, k):
                if self.out is not None:
                    r.raise_("InvalidStateError", "already done")
                r.write(self, "out", (kind, a[0]))

            return f

        if name == "set_result":
            return Native(name, put("ret"))
        if name == "set_exception":
            return Native(name, put("exc"))
        if name == "done":
            return Native(name, lambda r, a, k: self.out is not None)
        if name == "__await__":
            return Native(name, lambda r, a, k: __import__("pyvc.engine").engine.AwaitIter(self))
        return UNSET


# ----------------------------------------------------------------------------------------------- the pruning pool
class Pool(Contract):
    """ghost state in run.ghost; `me`: this thread's own state (None for a submitter)"""

    assumes = (
        "SimpleQueue, Semaphore, Lock are linearizable and keep their documented meaning; the interpreter may switch threads between any two of their operations",
        "concurrent.futures: submit puts the call into the queue and then calls _adjust_thread_count; _WorkItem.run runs the callable once and never raises",
        "threads can be started (otherwise submit raises)",
        "steps of other threads are those proved by these contracts (rely/guarantee); the executor is not shut down while calls are submitted",
    )

    def start(self, run):
        for n in STATE:
            run.gset(n, z3.Int(n + "0"))
        self.MAX = z3.Int("MAX")
        run.assume(self.MAX >= 1)
        self.lock_mine = False
        self.setme(run, GONE)

    def setme(self, run, k):
        run.gset("me", z3.IntVal(k))

    def am(self, run, *ks):
        return z3.Or(*[run.gget("me") == k for k in ks])

    def g(self, run, n):
        return run.gget(n)

    def inv(self, run, me=None):
        N, I, F, S, Q, P = (self.g(run, n) for n in STATE)
        yield "counts", z3.And(N >= 0, I >= 0, F >= 0, S >= 0, Q >= 0, P >= 0, I + F <= N, N <= self.MAX)
        yield "K: tokens stand for idle threads no queued call counts on", z3.Or(S == 0, S <= I - (Q - P))
        yield "J: every queued call has a thread without work, unless all threads are in use", z3.Or(Q - P + S <= I + F, N == self.MAX)
        yield "L: a queued call has a thread", z3.Implies(Q - P > 0, N >= 1)

    def mine(self, run):
        """what this thread's own state contributes"""
        N, I, F, S, Q, P = (self.g(run, n) for n in STATE)
        return [z3.Implies(self.am(run, FETCHING), F >= 1), z3.Implies(self.am(run, IDLE), I >= 1), z3.Implies(self.am(run, RUNNING), I + F <= N - 1), z3.Implies(z3.Not(self.am(run, GONE)), N >= 1)]

    def others(self, run):
        """other threads do any number of steps"""
        old = {n: self.g(run, n) for n in STATE}
        for n in STATE:
            run.gset(n, z3.Int(run.fresh_name(n)))
        for _, t in self.inv(run):
            run.assume(t)
        for t in self.mine(run):
            run.assume(t)
        if self.pending:  # my own submission
            run.assume(self.g(run, "P") >= 1)
        if self.lock_mine:
            # no submission adjusts, no thread gets idle or leaves meanwhile: calls are put and taken, calls end
            N, I, F, S, Q, P = (self.g(run, n) for n in STATE)
            run.assume(z3.And(N == old["N"], S == old["S"], P >= old["P"], Q - P <= old["Q"] - old["P"], I <= old["IDLE"]))
            # every call taken by an idle thread leaves the queue
            run.assume(z3.Or(I - (Q - P) >= old["IDLE"] - (old["Q"] - old["P"])))

    def step(self, run, **d):
        """I change the shared state"""
        for n, v in d.items():
            run.gset(n, z3.simplify(v))
        for name, t in self.inv(run):
            run.prove(t, "pool: " + name)
        for t in self.mine(run):
            run.prove(t, "pool: own state")

    def objects(self, run):
        me = self
        ex = run.new(Obj(run.world.fn(MOD + "PruningThreadPoolExecutor")))
        lock = run.new(LockObj())

        def lock_acquire(r, l):
            if l is lock:
                me.others(r)
                me.lock_mine = True

        def lock_release(r, l):
            if l is lock:
                me.lock_mine = False

        run.hooks["lock_acquire"], run.hooks["lock_release"] = lock_acquire, lock_release
        self.lock = lock
        run.write(ex, "_adjusting_lock", lock)
        run.write(ex, "_idle_semaphore", run.new(Sem(self)))
        run.write(ex, "_work_queue", run.new(Queue(self)))
        run.write(ex, "_threads", run.new(Threads(self)))
        run.write(ex, "_max_workers", SInt(self.MAX))
        run.write(ex, "_timeout", run.fresh("timeout", "real"))
        run.write(ex, "_thread_name_prefix", run.fresh("prefix", "str"))
        run.write(ex, "_initializer", None)
        run.write(ex, "_initargs", ())
        sd = run.fresh("shutdown", "bool")
        run.write(ex, "_shutdown", False)
        self.ex = ex
        return ex


class HeapStub(Heap):
    def __init__(self, c):
        self.c = c
        self.cls = Ext("builtins.object", object)

    def truth(self, run):
        return True


class Sem(HeapStub):
    def getattr(self, run, name):
        c = self.c

        def acquire(r, a, k):
            c.others(r)
            S = c.g(r, "S")
            blocking = a[0] if a else k.get("blocking", True)
            timeout = a[1] if len(a) > 1 else k.get("timeout")
            if blocking is True and timeout is None:
                raise Unsupported("blocking acquire of the idle semaphore")
            if not r.branch(S > 0):
                return False
            r.event("token taken")
            d = {"S": S - 1}
            if c.pending and not c.counted:
                # the submission's call counts on an idle thread
                d["P"] = c.g(r, "P") - 1
                c.counted = True
            if c.leaving:
                d["N"], d["IDLE"] = c.g(r, "N") - 1, c.g(r, "IDLE") - 1
                c.setme(r, GONE)
                c.leaving, c.left = False, True
            c.step(r, **d)
            return True

        def release(r, a, k):
            c.others(r)
            r.event("token given")
            r.cover("idle")
            r.prove(c.am(r, FETCHING), "only a thread that has not yet given a token gives one")
            c.setme(r, IDLE)
            c.step(r, S=c.g(r, "S") + 1, IDLE=c.g(r, "IDLE") + 1, F=c.g(r, "F") - 1)

        f = {"acquire": acquire, "release": release}.get(name)
        return Native(name, f) if f else UNSET


class Queue(HeapStub):
    def getattr(self, run, name):
        c = self.c

        def take(r, blocking):
            c.others(r)
            Q = c.g(r, "Q")
            kinds = ["a call", "nothing"]
            if c.sentinels:
                kinds.append("a wake-up")
            k = r.fork(*kinds)
            if k == 0:
                r.assume(Q > 0)
                r.prove(c.am(r, IDLE, FETCHING), "a call is taken by a thread without work")
                was = r.branch(c.am(r, IDLE))
                c.setme(r, RUNNING)
                c.step(r, Q=Q - 1, **({"IDLE": c.g(r, "IDLE") - 1} if was else {"F": c.g(r, "F") - 1}))
                it = r.new(Item(c))
                r.event("took", it)
                r.cover("took a call")
                return it
            if k == 1:
                # a get that times out may give up though a call has just arrived
                if not blocking:
                    r.assume(Q == 0)
                r.raise_("queue.Empty")
            r.cover("woken")
            return None

        def get(r, a, k):
            b = a[0] if a else k.get("block", True)
            return take(r, b is not False)

        def empty(r, a, k):
            c.others(r)
            b = r.fresh("queue_empty", "bool")
            r.assume(z3.Implies(b.t, c.g(r, "Q") == 0))
            if not c.sentinels:
                r.assume(z3.Implies(c.g(r, "Q") == 0, b.t))
            return b

        def qsize(r, a, k):
            c.others(r)
            n = r.fresh("qsize", "int")
            r.assume(n.t >= c.g(r, "Q"))
            return n

        f = {"get": get, "get_nowait": lambda r, a, k: take(r, False), "empty": empty, "qsize": qsize, "put": lambda r, a, k: r.event("put", a[0])}.get(name)
        return Native(name, f) if f else UNSET


class Item(HeapStub):
    def getattr(self, run, name):
        c = self.c
        if name == "run":

            def run_(r, a, k):
                r.prove(c.am(r, RUNNING), "a taken call is run once")
                r.prove(not c.lock_mine, "no call is run under the lock")
                r.event("ran", self)
                c.others(r)
                c.setme(r, FETCHING)
                c.step(r, F=c.g(r, "F") + 1)

            return Native(name, run_)
        return UNSET


class Threads(HeapStub):
    def getattr(self, run, name):
        c = self.c

        def remove(r, a, k):
            r.prove(c.lock_mine, "threads leave under the lock")
            r.prove(c.am(r, IDLE), "only an idle thread leaves")
            r.prove(c.g(r, "Q") - c.g(r, "P") <= 0, "no thread leaves while a call is queued")
            r.prove(c.g(r, "N") > 1, "the last thread stays")
            r.event("leave")
            c.leaving = True

        def add(r, a, k):
            r.event("threads.add", a[0])

        f = {"remove": remove, "discard": remove, "add": add}.get(name)
        return Native(name, f) if f else UNSET

    def length(self, run):
        if not self.c.lock_mine:
            self.c.others(run)
        return self.c.g(run, "N")


class Thread(HeapStub):
    def __init__(self, c, target, args):
        super().__init__(c)
        self.target, self.args = target, args

    def getattr(self, run, name):
        c = self.c
        if name == "start":

            def start(r, a, k):
                r.prove(c.lock_mine, "threads are started under the lock")
                r.prove(self.target is c.worker, "the new thread runs the worker")
                r.event("start", self)
                # it has nothing to do yet and has given no token; the call it is started for counts on it
                c.step(r, N=c.g(r, "N") + 1, F=c.g(r, "F") + 1, **({"P": c.g(r, "P") - 1} if not c.counted else {}))
                c.counted = True

            return Native(name, start)
        return UNSET

    def setattr(self, run, name, v):
        run.event("thread-setattr", name, v)


from pyvc.models import LockObj


class Adjust(Pool):
    functions = [MOD + "PruningThreadPoolExecutor._adjust_thread_count", MOD + "PruningThreadPoolExecutor.__len__"]
    name = "_adjust_thread_count: the submitted call gets an idle thread or a new one, unless all are in use"
    must_cover = ("idle thread", "new thread", "all in use")

    def run(self, run):
        self.start(run)
        self.pending, self.counted, self.leaving, self.left, self.sentinels = True, False, False, False, False
        ex = self.objects(run)
        self.worker = run.world.fn(MOD + "_worker")

        def ext(r, f, args, kwargs):
            p = f.path if isinstance(f, Ext) else ""
            if p == "threading.Thread":
                t = r.new(Thread(self, kwargs.get("target"), kwargs.get("args")))
                return t
            if p == "weakref.ref":
                return r.new(WRef(self))
            return UNSET

        run.hooks["ext_call"] = ext
        run.hooks["ext_setitem"] = lambda r, o, k, v: o.path.endswith("_threads_queues") and (r.event("threads_queues.set", k, v) or True)
        for _, t in self.inv(run):
            run.assume(t)
        run.assume(self.g(run, "P") >= 1)
        e0 = len(run.trace)
        out = outcome_of(run, lambda: run.call(run.getattr_(ex, "_adjust_thread_count"), [], {}))
        run.prove(out[0] == "ret", "adjusting the threads does not fail")
        run.prove(not self.lock_mine, "the lock is released")
        ev = [e[0] for e in run.trace[e0:]]
        starts = [e[1] for e in run.trace[e0:] if e[0] == "start"]
        run.prove(len(starts) <= 1, "at most one thread is started")
        for t in starts:
            run.prove(("threads.add", t) in [tuple(e[:2]) for e in run.trace[e0:]], "a started thread is recorded")
            args = t.args
            run.prove(len(args) == 5 and args[1] is run.getattr_(ex, "_work_queue"), "it works on the pool's queue")
        if not self.counted:
            run.cover("all in use")
            # the submission is over: its call is only in the queue
            self.pending = False
            N = self.g(run, "N")
            run.prove(N == self.MAX, "a call gets no thread of its own only if all threads are in use")
            self.step(run, P=self.g(run, "P") - 1)
        else:
            run.cover("new thread" if starts else "idle thread")


class WRef(HeapStub):
    def call(self, run, args, kwargs):
        return None if self.c.gone else self.c.ex


class Worker(Pool):
    def invariants(self, run, loop_id, st, fr, cur):
        if getattr(self, "ex", None) is None:
            return
        for n, t in self.inv(run):
            yield n, lambda t=n: dict(self.inv(run))[t]
        for i in range(4):
            yield f"own state {i}", lambda i=i: self.mine(run)[i]
        yield "between calls", lambda: self.am(run, FETCHING, IDLE)
        for v, x in list(fr.env.vars.items()):
            if isinstance(x, (bool, SBool)):
                for k in (IDLE, FETCHING):
                    yield f"{v} tells the state {k}", lambda v=v, k=k: zbool(run.truth_term(fr.env.vars[v])) == self.am(run, k)

    def iter_end(self, run, loop_id, st, fr, cur, x, trace):
        took = [e[1] for e in trace if e[0] == "took"]
        ran = [e[1] for e in trace if e[0] == "ran"]
        run.prove(took == ran, "every call taken from the queue is run once before the next")
        run.prove(not self.lock_mine, "the lock is released before the next call")

    functions = [MOD + "_worker"]
    name = "_worker: takes calls, runs each once, is counted as idle exactly while it is, leaves only when others remain and nothing is queued"
    must_cover = ("took a call", "idle", "left", "woken")

    def run(self, run):
        self.start(run)
        self.pending, self.counted, self.leaving, self.left, self.sentinels, self.gone = False, False, False, False, True, False
        ex = self.objects(run)
        self.setme(run, FETCHING)
        for _, t in self.inv(run):
            run.assume(t)
        for t in self.mine(run):
            run.assume(t)
        def ext(r, f, args, kwargs):
            p = f.path if isinstance(f, Ext) else ""
            if p.endswith("_threads_queues.pop"):
                r.event("threads_queues.pop", args[0])
                return None
            return UNSET

        run.hooks["ext_call"] = ext
        run.hooks["ext_truth"] = lambda r, o: False if o.path.endswith("thread._shutdown") else None
        ref = run.new(WRef(self))
        f = run.world.fn(MOD + "_worker")
        out = outcome_of(run, lambda: run.call(f, [ref, run.getattr_(ex, "_work_queue"), None, (), run.fresh("timeout", "real")], {}))
        run.prove(out[0] == "ret", "a worker does not die")
        run.prove(not self.lock_mine, "the lock is released")
        if self.leaving:  # left without a token in the semaphore
            self.setme(run, GONE)
            self.left = True
            self.step(run, N=self.g(run, "N") - 1, IDLE=self.g(run, "IDLE") - 1)
        run.prove(self.left, "a worker ends only by leaving the pool")
        run.cover("left")


def contracts():
    out = [Executors(c, op) for c in ("AsyncThreadPoolExecutor", "AsyncProcessPoolExecutor", "PruningThreadPoolExecutor") for op in ("run", "submit")]
    return out + [Adjust(), Worker()]
