"""Bulk reads, over a queue of any contents.

`mine` (ghost): what this reader took, every time the front of the queue, in that order.  Loop invariants: the list being filled is `mine`; and
without suspension, `mine` followed by the queue is what the queue was.  A read that fails puts `mine` back in front of what is there then."""
from .queues import *

Q = "a_sync.primitives.queue:"
FN = [Q + "Queue." + n for n in ("get", "get_nowait", "put", "put_nowait", "get_all", "get_all_nowait", "get_multi", "get_multi_nowait", "_return_items", "__bool__", "__len__")] + [Q + "_validate_args"]


class Bulk(Contract):
    functions = FN
    assumes = (
        "asyncio.Queue as in contracts/queues.py: its contents are a deque; get_nowait takes the front, get waits and then does so, a cancelled get takes nothing",
        "collections.deque: extendleft(reversed(l)) puts the elements of l, in their order, in front",
    )

    def prepare(self, run):
        install(run, self)
        cls = run.world.fn(Q + "Queue")
        self.q = run.new(Obj(cls))
        self.Q0 = run.fresh("Q0", "seq")
        self.d = Deque(run, self.Q0)
        f = self.q.fields
        f["_queue"] = self.d
        f["_maxsize"] = run.fresh("maxsize", "int")
        f["_unfinished_tasks"] = run.fresh("unfinished", "int")
        f["_getters"], f["_putters"] = Waiters("getters"), Waiters("putters")
        self.unf = f["_unfinished_tasks"]
        self.waited = False
        self.cancelled = None
        self.mark = 0

    def queue_rely(self, run):
        """others may take and put; what is there is taken only by readers that ran: any queue"""
        self.waited = True
        self.d.havoc(run)
        self.rely_mark(run)

    def rely_mark(self, run):
        pass

    def queue_init(self, run, a):
        raise Unsupported("construction of a queue")

    def at_cancel(self, run):
        self.cancelled = self.d.seq

    def invariants(self, run, loop_id, st, fr, cur):
        if not hasattr(self, "d"):
            return
        mine = run.mine
        yield "nothing suspended: mine + queue = what it was", lambda: (not self.waited) and z3.Concat(mine.seq, self.d.seq) == self.Q0
        yield "nothing put back yet", lambda: z3.Length(mine.seq) + z3.Length(self.d.seq) == z3.Length(self.Q0)
        for i, l in enumerate(local_lists(run, fr)):
            yield f"list {i} = mine", lambda l=l: seq_of(run, l) == mine.seq
            yield f"list {i} at most n", lambda l=l: z3.Length(seq_of(run, l)) <= self.n
            yield f"list {i} filled one by one", lambda l=l: z3.Length(seq_of(run, l)) == cur.i
        yield "it counts what it took", lambda: z3.Length(mine.seq) == cur.i

    def untouched(self, run):
        run.prove(self.q.fields["_unfinished_tasks"] is self.unf or run.same(self.q.fields["_unfinished_tasks"], self.unf), "the count of unfinished work is not touched")
        run.prove(not [e for e in run.trace if e[0] in ("task_done", "put")], "nothing is counted or put")

    def result(self, run, v):
        ok = isinstance(v, ListObj)
        run.prove(ok, "a list is returned")
        return seq_of(run, v) if ok else z3.Empty(SeqV)

    def is_now(self, run, got):
        """a read that did not wait: a front part of the queue, the rest left as it was"""
        run.prove(z3.Concat(got, self.d.seq) == self.Q0, "the front items in order; the others stay as they were")


class Waiters(Val):
    def __init__(self, name):
        self.name = name

    def truth(self, run):
        return run.fresh("some_waiters", "bool").t


def count(run):
    """a count, and whether fewer are allowed, as a caller may give them"""
    n = run.fresh("count", "int")
    less = [None, True, False][run.fork("can_return_less absent", "can_return_less True", "can_return_less False")]
    return n, less


class AllNow(Bulk):
    name = "get_all_nowait"
    must_cover = ("empty", "items")

    def run(self, run):
        self.prepare(run)
        out = outcome_of(run, lambda: run.call(run.getattr_(self.q, "get_all_nowait"), [], {}))
        self.untouched(run)
        if out[0] == "exc":
            run.cover("empty")
            prove_exc(run, out, "QueueEmpty", "it refuses with QueueEmpty")
            run.prove(z3.Length(self.Q0) == 0, "only an empty queue refuses")
            run.prove(self.d.seq == self.Q0, "the queue stays as it was")
            return
        run.cover("items")
        got = self.result(run, out[1])
        self.is_now(run, got)
        run.prove(z3.Length(self.d.seq) == 0, "everything is taken")
        run.prove(z3.Length(got) > 0, "not nothing")


class All(Bulk):
    name = "get_all"
    must_cover = ("at once", "waited", "cancelled")

    def run(self, run):
        self.prepare(run)
        out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(self.q, "get_all"), [], {})))
        self.untouched(run)
        if out[0] == "exc":
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", "it fails only if it is cancelled")
            run.prove(self.cancelled is not None and self.waited, "only while waiting")
            if self.cancelled is not None:
                run.prove(self.d.seq == z3.Concat(run.mine.seq, self.cancelled), "a failed read leaves every item in the queue")
            return
        got = self.result(run, out[1])
        run.prove(got == run.mine.seq, "exactly what it took, in that order")
        run.prove(z3.Length(got) > 0, "not nothing")
        if self.waited:
            run.cover("waited")
            run.prove(z3.Length(self.Q0) == 0, "it waits only if the queue is empty")
        else:
            run.cover("at once")
            self.is_now(run, got)
            run.prove(z3.Length(self.d.seq) == 0, "everything is taken")


class MultiNow(Bulk):
    name = "get_multi_nowait"
    must_cover = ("refused count", "empty", "all", "fewer")

    def run(self, run):
        self.prepare(run)
        n, less = count(run)
        self.n = n.t
        kw = {} if less is None else {"can_return_less": less}
        out = outcome_of(run, lambda: run.call(run.getattr_(self.q, "get_multi_nowait"), [n], kw))
        self.untouched(run)
        L = z3.Length(self.Q0)
        if out[0] == "exc":
            run.prove(self.d.seq == self.Q0, "the queue stays as it was")
            if exc_name(run, out[1]) == "QueueEmpty":
                run.cover("empty")
                run.prove(z3.And(L < self.n, z3.Or(L == 0, not less)), "it refuses only if there is not enough")
            else:
                run.cover("refused count")
                run.prove(exc_name(run, out[1]) in ("ValueError", "TypeError"), "a bad count is refused as such")
                run.prove(self.n <= 1, "only counts below two are refused")
            return
        got = self.result(run, out[1])
        self.is_now(run, got)
        if less:
            run.cover("fewer")
            run.prove(z3.Length(got) == z3.If(L < self.n, L, self.n), "as many as there are, at most the number asked for")
            run.prove(z3.Length(got) > 0, "not nothing")
        else:
            run.cover("all")
            run.prove(z3.Length(got) == self.n, "the number asked for")


class Multi(Bulk):
    name = "get_multi"
    must_cover = ("refused count", "cancelled", "all", "fewer")

    def run(self, run):
        self.prepare(run)
        n, less = count(run)
        self.n = n.t
        kw = {} if less is None else {"can_return_less": less}
        out = outcome_of(run, lambda: run.await_(run.call(run.getattr_(self.q, "get_multi"), [n], kw)))
        self.untouched(run)
        if out[0] == "exc":
            if exc_name(run, out[1]) == "CancelledError":
                run.cover("cancelled")
                run.prove(self.cancelled is not None, "it is cancelled only while waiting")
                if self.cancelled is not None:
                    run.prove(self.d.seq == z3.Concat(run.mine.seq, self.cancelled), "a failed read leaves every item in the queue, in order")
            else:
                run.cover("refused count")
                run.prove(exc_name(run, out[1]) in ("ValueError", "TypeError"), "a bad count is refused as such")
                run.prove(self.n <= 1, "only counts below two are refused")
                run.prove(self.d.seq == self.Q0, "the queue stays as it was")
            return
        got = self.result(run, out[1])
        run.prove(got == run.mine.seq, "exactly what it took, in that order")
        if less:
            run.cover("fewer")
            run.prove(z3.And(z3.Length(got) > 0, z3.Length(got) <= self.n), "at least one, at most the number asked for")
            run.prove(z3.Implies(z3.Length(got) < self.n, z3.Length(self.d.seq) == 0), "fewer only if there are no more")
        else:
            run.cover("all")
            run.prove(z3.Length(got) == self.n, "the number asked for")


class Single(Bulk):
    must_cover = ("done",)

    def __init__(self, how):
        self.how = how
        self.name = f"{how} is asyncio's"

    def run(self, run):
        self.prepare(run)
        x = run.fresh("item")
        a = [x] if self.how.startswith("put") else []
        call = lambda: run.call(run.getattr_(self.q, self.how), a, {})
        out = outcome_of(run, call if self.how.endswith("nowait") else lambda: run.await_(call()))
        if a:
            puts = [e for e in run.trace if e[0] == "put"]
            if out[0] == "ret":
                run.prove(len(puts) == 1 and puts[0][1] is x, "the item is put once")
                run.cover("done")
            else:
                run.prove(not puts, "a failed put puts nothing")
        else:
            took = [e for e in run.trace if e[0] == "took"]
            if out[0] == "ret":
                run.prove(len(took) == 1, "one item is taken")
                for e in took:
                    prove_same(run, out[1], e[1], "and returned")
                run.cover("done")
            else:
                run.prove(not took, "a failed read takes nothing")


class Return(Bulk):
    """putting back: in front, in order, and one reader woken for each"""

    name = "_return_items"
    must_cover = ("put back",)

    def iter_end(self, run, loop_id, st, fr, cur, x, trace):
        self.woken = [e for e in trace if e[0] == "wake"]
        run.prove(len(self.woken) == 1 and all(e[1].name == "getters" for e in self.woken), "one reader is woken for each item put back")

    def run(self, run):
        self.prepare(run)
        S = run.fresh("items", "seq")
        l = run.list(None, S)
        self.n = z3.Length(S)
        out = outcome_of(run, lambda: run.call(run.getattr_(self.q, "_return_items"), [l], {}))
        run.cover("put back")
        run.prove(out[0] == "ret", "it returns")
        run.prove(self.d.seq == z3.Concat(S, self.Q0), "all items are in front again, in their order")
        self.untouched(run)


class Truth(Bulk):
    name = "truth and length"

    def run(self, run):
        self.prepare(run)
        run.prove(run.truth_term(self.q) is True, "a queue is true, empty or not")
        n = run.call(run.getattr_(self.q, "__len__"), [], {})
        run.prove((n.t if isinstance(n, SInt) else z3.IntVal(n)) == z3.Length(self.Q0), "its length is the number of its items")


def contracts():
    return [AllNow(), All(), MultiNow(), Multi(), Return(), Truth()] + [Single(h) for h in ("get", "get_nowait", "put", "put_nowait")]
