"""any / all: for any number of awaitables, known at a generic one.  If the loop is left at some awaitable, that one decides; if not, it says the
same of every one."""
from .collect import *

M = "a_sync.utils:"


class Ensured(Val):
    """asyncio.ensure_future(x): a future that ends as x"""

    def __init__(self, aw):
        self.aw = aw
        self.cls = Ext("asyncio.Task", __import__("asyncio").Task)

    def isawaitable(self, run):
        return True

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name == "cancel":
            return Native("cancel", lambda r, a, k: r.event("cancel", self) and True)
        return UNSET

    def await_(self, run):
        return run.await_(self.aw)


class AnyAll(Contract):
    functions = [M + "any", M + "all"]
    assumes = (
        "asyncio.ensure_future(x) ends as x; asyncio.as_completed yields one awaitable per future, as they complete (contracts/collect.py)",
        "collections of n >= 1 elements are known at one generic element; loops over them are run once for it (pyvc/coll.py)",
        "the truth of a value does not change between being asked twice",
    )
    must_cover = ("nothing", "true", "false", "failure")

    def __init__(self, fn):
        self.fn = fn
        self.name = f"{fn} of any number of awaitables"

    def run(self, run):
        install(run)
        old = run.hooks["ext_call"]
        run.hooks["ext_call"] = lambda r, f, a, k: Ensured(a[0]) if f.path in ("asyncio.ensure_future", "asyncio.tasks.ensure_future") else old(r, f, a, k)
        fn = run.world.fn(M + self.fn)
        c, x = some_awaitables(run, "tuple")
        out = outcome_of(run, lambda: run.await_(run.call(fn, [StarArgs(c)] if c is not None else [], {})))
        for e in run.trace:
            if e[0] == "timeout":
                run.prove(False, "no timeout")
        if c is None:
            run.cover("nothing")
            run.prove(out == ("ret", self.fn == "all"), f"{self.fn} of nothing is what the built-in says")
            return
        runs = [e for e in run.trace if e[0] == "user" and e[1] is x]
        ended = [e for e in run.trace if e[0] in ("user-ret", "user-exc") and e[1] is x]
        run.prove(len(runs) <= 1, "no awaitable is awaited twice")
        if not ended:
            run.prove(False, "the answer is not given before an awaitable ended")
            return
        if ended[0][0] == "user-exc":
            run.cover("failure")
            run.prove(out[0] == "exc", "a failure is no answer")
            return
        run.prove(out[0] == "ret", "an answer is given when nothing fails")
        if out[0] != "ret":
            return
        truthy = zbool(run.truth_term(ended[0][2]))
        v = out[1]
        run.prove(zbool(run.truth_term(run.isinstance_(v, Ext("builtins.bool", bool)))) if not isinstance(v, bool) else True, "the answer is a bool")
        if not isinstance(v, bool):
            v = run.branch(zbool(run.truth_term(v)))
        run.cover("true" if v else "false")
        # left early: the awaitable at hand decides; otherwise it stands for all
        early = c.fam.pinned
        if self.fn == "any":
            run.prove(truthy if v else z3.Not(truthy), "true: that awaited value is truthy; false: every one is falsy")
            run.prove(early if v else True, "true only because of one")
        else:
            run.prove(truthy if v else z3.Not(truthy), "true: every awaited value is truthy; false: that one is falsy")
            run.prove(True if v else early, "false only because of one")
        run.prove(early != (v if self.fn == "all" else not v), "an answer for all only after all have ended")


def contracts():
    return [AnyAll("any"), AnyAll("all")]
