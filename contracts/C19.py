"""Aggregates over a task mapping, for any number of results.

The mapping gives items (key, item(0)), (key, item(1)), ...; then it ends, or fails (a key's failure; the failure that says a source was empty;
the failure that says there is nothing to iterate).  ALL, ANY, MAX, MIN are the built-ins' answers over the first i items, defined as the
built-ins compute them: the truth of every item in order; the first item, replaced by a later one that is > (max) or < (min).  SUM stands for the
built-in sum of the items.  What the items answer when asked for their truth or compared is arbitrary, failures included.
Loop invariant, found for every local variable: it is the built-in's answer over the items so far."""
from .collect import *
from .C16 import F, item, user_error
from .queues import local_lists, seq_of

T_ = "a_sync.task:"
TM = T_ + "TaskMapping."
OPS = ("all", "any", "max", "min", "sum")

GT = z3.Function("GT", V, V, z3.BoolSort())
LT = z3.Function("LT", V, V, z3.BoolSort())
TRUE = z3.Function("TRUE", V, z3.BoolSort())
ALL = z3.Function("ALL", z3.IntSort(), z3.BoolSort())
ANY = z3.Function("ANY", z3.IntSort(), z3.BoolSort())
MAX = z3.Function("MAX", z3.IntSort(), V)
MIN = z3.Function("MIN", z3.IntSort(), V)
SUM = z3.Function("SUM", SeqV, V)


def private(run):
    """objects of the module's own, which no result is"""
    m = run.world.module("a_sync.task")
    return [v for v in m.ns.values() if isinstance(v, Obj) and getattr(v.cls, "path", None) == "builtins.object"]


class Items:
    """the mapping's own iteration"""

    def __init__(self, c, run, mapping, pop):
        self.c, self.mapping, self.pop = c, mapping, pop
        self.n = run.fresh("n", "int").t
        run.assume(self.n >= 0)
        run.assume(F(0) == z3.Empty(SeqV))
        run.assume(z3.And(ALL(0), z3.Not(ANY(0))))
        run.gset("pos", SInt(z3.IntVal(0)))
        self.cls = Ext("builtins.async_generator", type((lambda: (yield))()))
        self.val = run.fresh("items")
        run.assume(self.val.t != V.none)
        self.val.model = self
        self.how = None

    def truth(self, run, o):
        return True

    def pos(self, run):
        return run.gget("pos").t

    def pull(self, run):
        run.rely()
        p = self.pos(run)
        if run.branch(p < self.n):
            run.gset("pos", SInt(p + 1))
            x = SV(item(p))
            x.model = self.c
            for o in private(run):
                run.assume(item(p) != run.to_V(o))
            run.assume(F(p + 1) == z3.Concat(F(p), z3.Unit(item(p))))
            run.assume(ALL(p + 1) == z3.And(ALL(p), TRUE(item(p))))
            run.assume(ANY(p + 1) == z3.Or(ANY(p), TRUE(item(p))))
            run.assume(MAX(p + 1) == z3.If(p == 0, item(p), z3.If(GT(item(p), MAX(p)), item(p), MAX(p))))
            run.assume(MIN(p + 1) == z3.If(p == 0, item(p), z3.If(LT(item(p), MIN(p)), item(p), MIN(p))))
            return x
        # its own finally: a popping iteration that ends, in whatever way, has consumed the mapping
        if self.pop:
            run.event("cleared")
        if run.branch(p == 0):
            self.how = ("ends", "nothing to iterate", "an empty source", "a key fails")[run.fork("it ends", "nothing to iterate", "an empty source", "a key fails")]
        else:
            self.how = ("ends", "a key fails")[run.fork("it ends", "a key fails")]
        if self.how == "ends":
            run.raise_("StopAsyncIteration")
        if self.how == "an empty source":
            e = run.call(run.world.fn(T_ + "_EmptySequenceError"), [run.fresh("source")], {})
            raise PyExc(e)
        if self.how == "nothing to iterate":
            e = run.call(run.world.fn("a_sync.exceptions:MappingIsEmptyError"), [self.mapping, ""], {})
            self.err = e
            raise PyExc(e)
        self.err = user_error(run, "key_error")
        run.assume(z3.Not(zbool(run.isinstance_(self.err, run.world.fn(T_ + "_EmptySequenceError")))))
        raise PyExc(self.err)

    def getattr(self, run, o, name):
        if name == "__aiter__":
            return Native(name, lambda r, a, k: o)
        if name == "__anext__":
            return Native(name, lambda r, a, k: Coro(lambda: (r.fresh("key"), self.pull(r)), "next", [], {}, None))
        if name == "aclose":
            return Native(name, lambda r, a, k: Coro(lambda: r.event("cleared") if self.pop else None, "aclose", [], {}, None))
        run.raise_("AttributeError", name)

    def iterator(self, run, o, is_async):
        if not is_async:
            run.raise_("TypeError", "not iterable")
        return ItemsCursor(self)


class ItemsCursor:
    def __init__(self, src):
        self.src = src

    def begin(self, run):
        pass

    havoc = advance = finish = begin

    def candidates(self, run):
        return []

    def more(self, run):
        try:
            self.x = (run.fresh("key"), self.src.pull(run))
            return True
        except PyExc as e:
            if exc_name(run, e.value) == "StopAsyncIteration":
                return False
            raise

    def element(self, run):
        return self.x


class Aggregate(Contract):
    assumes = (
        "iterating the mapping: C18's contract (the results, a popping iteration that ends clears the mapping)",
        "built-in max / min compare every item in order by > / < with the best so far; all / any ask every item in order; sum over a list (trusted)",
        "a result, its truth and its comparisons fail with no _EmptySequenceError of a_sync.task",
    )

    def __init__(self, op, pop):
        self.op, self.pop = op, pop
        self.name = f"{op}, {'popping' if pop else 'not popping'}"
        self.functions = [TM + op]
        self.must_cover = ["answered", "an empty source", "nothing to iterate", "a key fails"] + {"all": ["asked and failed"], "any": ["asked and failed"], "max": ["no results", "asked and failed"], "min": ["no results", "asked and failed"], "sum": []}[op]

    # --- what results answer
    def ask(self, run, what, t):
        self.asked += 1
        if run.fork("it answers", "it fails") == 1:
            self.answer_exc = user_error(run, what + "_error")
            run.assume(z3.Not(zbool(run.isinstance_(self.answer_exc, run.world.fn(T_ + "_EmptySequenceError")))))
            raise PyExc(self.answer_exc)
        return t

    def truth(self, run, o):
        return self.ask(run, "truth", TRUE(o.t))

    def compare(self, run, name, a):
        x, y = a
        if not (isinstance(x, SV) and isinstance(y, SV)):
            return UNSET
        f = {"__gt__": GT, "__lt__": LT}.get(name)
        if f is None:
            return SBool(self.ask(run, name, run.fresh(name, "bool").t))
        return SBool(self.ask(run, name, f(x.t, y.t)))

    def run(self, run):
        self.asked, self.answer_exc = 0, None
        cls = run.world.fn(T_ + "TaskMapping")
        m = run.new(Obj(cls))
        self.src = None

        def aiter(r, f, a, k):
            a = list(a)
            pop = a[1] if len(a) > 1 else k.get("pop", False)
            r.prove(a[0] is m and r.truth_term(pop) is self.pop, "the mapping is iterated, popping as asked")
            r.prove(self.src is None, "once")
            self.src = Items(self, r, m, self.pop)
            r.event("iterated")
            return self.src.val

        def clear(r, f, a, k):
            pop = a[1] if len(a) > 1 else k["pop"]
            return Coro(lambda: r.event("cleared") if r.truth(pop) else None, "_if_pop_clear", list(a), dict(k), f)

        run.summaries[TM + "__aiter__"] = aiter
        run.summaries[TM + "_if_pop_clear"] = clear
        run.hooks["opaque_compare"] = lambda r, name, a: self.compare(r, name, a)
        run.hooks["sum"] = self.sum
        run.hooks["max"] = lambda r, a, k: self.best(r, MAX, a, k)
        run.hooks["min"] = lambda r, a, k: self.best(r, MIN, a, k)
        d = run.class_attr(cls, self.op)
        fn = d
        while not isinstance(fn, Closure):
            fn = fn.fields["__wrapped__"] if isinstance(fn, Obj) else None
            if fn is None:
                raise Unsupported(f"{self.op} is {d!r}")
        out = outcome_of(run, lambda: run.await_(run.call(fn, [m], {"pop": self.pop})))
        self.judge(run, out)

    def sum(self, run, a, k):
        ok = len(a) == 1 and not k and isinstance(a[0], ListObj)
        if not ok:
            raise Unsupported("sum of something else")
        return SV(SUM(seq_of(run, a[0])))

    def best(self, run, f, a, k):
        if len(a) != 1 or k or not isinstance(a[0], ListObj) or a[0].items is not None:
            return UNSET
        run.prove(a[0].seq == F(self.src.pos(run)), "the results")
        if run.branch(z3.Length(a[0].seq) == 0):
            run.raise_("ValueError", "empty")
        return SV(f(self.src.pos(run)))

    def invariants(self, run, loop_id, st, fr, cur):
        src = self.src
        if src is None:
            return
        pos = lambda: src.pos(run)
        yield "0 <= pos <= n", lambda: z3.And(pos() >= 0, pos() <= src.n)
        yield "all so far", lambda: ALL(pos())
        yield "none so far", lambda: z3.Not(ANY(pos()))
        for i, l in enumerate(local_lists(run, fr)):
            yield f"list {i} has the results so far", lambda l=l: seq_of(run, l) == F(pos())
        for i, o in enumerate(private(run)):
            yield f"the best so far is not private object {i}", lambda o=o: z3.Implies(pos() > 0, z3.And(MAX(pos()) != run.to_V(o), MIN(pos()) != run.to_V(o)))
        consts = [None, *private(run)]
        e = fr.env
        for n in sorted(getattr(e, "vars", {})):
            def val(n=n):
                try:
                    return run.to_V(e.vars[n])
                except Unsupported:
                    raise KeyError(n)  # not a value: nothing to say about it

            for what, f in (("max", MAX), ("min", MIN)):
                yield f"{n} is the {what} so far", lambda f=f, val=val: z3.Implies(pos() > 0, val() == f(pos()))
            for i, o in enumerate(consts):
                yield f"{n} is constant {i} as long as there is none", lambda o=o, val=val: z3.Implies(pos() == 0, val() == run.to_V(o))
            for b in (True, False):
                yield f"{n} is {b} as long as there is none", lambda b=b, n=n: zbool(run.truth_term(e.vars[n])) == ((pos() == 0) if b else (pos() > 0)) if isinstance(e.vars[n], (bool, SBool)) else None

    def cleared(self, run):
        it = [i for i, e in enumerate(run.trace) if e[0] == "iterated"]
        return any(e[0] == "cleared" for e in run.trace[it[0]:]) if it else False

    def judge(self, run, out):
        src = self.src
        run.prove(src is not None, "the mapping is iterated")
        if src is None:
            return
        pos = src.pos(run)
        run.prove(self.cleared(run) is self.pop, "popping consumes the mapping, and only that")
        if self.answer_exc is not None:
            run.cover("asked and failed")
            prove_outcome(run, out, ("exc", self.answer_exc), "a result that cannot be asked fails the aggregate, as the built-in")
            return
        how = src.how
        if how in ("nothing to iterate", "a key fails"):
            run.cover(how)
            prove_outcome(run, out, ("exc", src.err), "what fails the iteration fails the aggregate")
            return
        if how == "an empty source" or how == "ends" and self.op in ("max", "min") and run.branch(pos == 0):
            run.cover("an empty source" if how != "ends" else "no results")
            if self.op in ("max", "min"):
                prove_exc(run, out, "ValueError", "an empty sequence has no best item")
            else:
                run.prove(out[0] == "ret", "an empty source has an answer")
                if out[0] == "ret":
                    run.prove(run.same(out[1], {"all": True, "any": False, "sum": 0}[self.op]), "the built-in's answer for nothing")
            return
        run.prove(out[0] == "ret", "there is an answer")
        if out[0] != "ret":
            return
        run.cover("answered")
        r = out[1]
        if self.op in ("all", "any"):
            f = ALL if self.op == "all" else ANY
            run.prove(isinstance(r, (bool, SBool)), "a truth value")
            run.prove(zbool(run.truth_term(r)) == f(pos), "the built-in's answer for the results so far")
            if how != "ends":
                run.prove(f(pos) == (self.op == "any"), "left early only when nothing can change the answer")
            return
        run.prove(how == "ends" and pos == src.n if how == "ends" else False, "of all results")
        want = {"max": MAX(pos), "min": MIN(pos), "sum": SUM(F(pos))}[self.op]
        run.prove(run.to_V(r) == want, "the built-in's answer")


def contracts():
    return [Aggregate(op, pop) for op in OPS for pop in (True, False)]
