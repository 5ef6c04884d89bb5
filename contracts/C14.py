"""as_completed: for any number of awaitables, known at a generic one: its outcome is delivered once, as it completes (asyncio's order, of these
very awaitables), with its own key; failures are raised or values; the timeout is the caller's."""
from .collect import *
from .C13 import ASSUMES, EmptyMap

A = "a_sync.asyncio.as_completed:"
FUNCS = [A + n for n in ("as_completed", "as_completed_mapping", "__mapping_wrap", "__yield_as_completed", "_exc_wrap")]


class Completed(Contract):
    functions = FUNCS
    assumes = ASSUMES

    def __init__(self, what, aiter, rexc, tqdm):
        self.what, self.aiter, self.rexc, self.tqdm = what, aiter, rexc, tqdm
        self.name = f"as_completed of {what}, {'as async iterator' if aiter else 'as iterator of awaitables'}, return_exceptions {rexc}, tqdm {tqdm}"
        self.must_cover = ["delivered", "timed out", "no timeout", "nothing"] + (["exception as value"] if rexc == "on" else ["raised"])

    def run(self, run):
        install(run)
        fn = run.world.fn(A + "as_completed")
        kw = {}
        if self.aiter:
            kw["aiter"] = True
        elif run.fork("aiter not given", "aiter off") == 1:
            kw["aiter"] = False
        if self.rexc != "absent":
            kw["return_exceptions"] = self.rexc == "on"
        bar = {}
        if self.tqdm:
            kw["tqdm"] = True
            if run.fork("no bar keywords", "bar keywords") == 1:
                bar = {"desc": run.fresh("desc")}
                kw.update(bar)
        timeout = None
        t = run.fork("no timeout", "timeout", "timeout None")
        if t == 1:
            timeout = kw["timeout"] = run.fresh("timeout", "real")
        elif t == 2:
            kw["timeout"] = None
        if self.rexc == "on":
            run.hooks["aw_exc"] = True
        mapping = self.what == "a mapping"
        key = x = None
        if mapping:
            if run.fork("some", "none") == 1:
                src, fam = run.new(EmptyMap()), None
            else:
                src, key, x = some_mapping(run)
                fam = src.fam
        else:
            c, x = some_awaitables(run, "tuple")
            src, fam = (c, c.fam) if c is not None else (run.list([]), None)
        # the consumer: takes everything that is delivered, each failure as it comes
        self.delivered = []
        ns = user_module(run, CONSUMER, note=Native("note", lambda r, a, k: r.event("delivered", *a)))
        out = outcome_of(run, lambda: run.call(fn, [src], kw))
        run.prove(out[0] == "ret", "as_completed itself does not fail")
        if out[0] != "ret":
            return
        it = out[1]
        if self.aiter:
            run.prove(isinstance(it, SourceIter), "aiter gives an ASyncIterator")
        res = outcome_of(run, lambda: run.await_(run.call(ns["consume_async" if self.aiter else "consume"], [it], {})))
        for e in run.trace:
            if e[0] == "tqdm":
                run.prove(bool(self.tqdm), "a progress bar only when asked for")
                k2 = dict(e[1])
                run.prove(set(k2) == set(bar), "the bar gets exactly the caller's keywords")
                for n in bar:
                    if n in k2:
                        prove_same(run, k2[n], bar[n], "the bar's keyword")
        ac = [e for e in run.trace if e[0] == "as_completed"]
        run.prove(len(ac) == 1, "asyncio's as_completed is used, once")
        for e in ac:
            if timeout is None:
                run.prove(e[2] is None, "no timeout unless one is given")
            else:
                prove_same(run, e[2], timeout, "the timeout is the caller's")
        run.cover("no timeout" if timeout is None else "timeout")
        got = [e[1:] for e in run.trace if e[0] == "delivered"]
        if x is None:
            run.cover("nothing")
            run.prove(res[0] == "ret" and got == [], "nothing is delivered for nothing")
            return
        el = ac[0][1] if ac else None
        run.prove(isinstance(el, GColl) and el.fam is fam, "it is these awaitables whose completion is waited for")
        runs = [e for e in run.trace if e[0] == "user" and e[1] is x]
        ended = [e for e in run.trace if e[0] in ("user-ret", "user-exc") and e[1] is x]
        if [e for e in run.trace if e[0] == "timeout"]:
            run.cover("timed out")
            if self.aiter:
                prove_exc(run, res, "TimeoutError", "a timeout is raised")
                run.prove(got == [], "nothing is delivered for what timed out")
            else:
                run.prove(len(got) == 1 and got[0][0] == "exc" and exc_name(run, got[0][1]) == "TimeoutError", "a timeout is raised")
            return
        run.prove(len(runs) == 1 and len(ended) == 1, "every awaitable is awaited exactly once, to its end")
        if not ended:
            return
        ended = ended[0]
        if ended[0] == "user-exc" and self.rexc != "on":
            run.cover("raised")
            if self.aiter:
                prove_outcome(run, res, ("exc", ended[2]), "a failure is raised as it is")
                run.prove(got == [], "nothing else is delivered for a failure")
            else:
                run.prove(len(got) == 1 and got[0][0] == "exc", "a failure is raised, once")
                for g in got:
                    prove_same(run, g[1], ended[2], "a failure is raised as it is")
            return
        run.prove(res[0] == "ret", "the iteration ends normally")
        run.prove(len(got) == 1, "every outcome is delivered exactly once")
        if ended[0] == "user-exc":
            run.cover("exception as value")
        run.cover("delivered")
        for g in got:
            run.prove(g[0] == "ok", "the outcome is delivered as a value")
            v = g[1]
            if mapping:
                ok = isinstance(v, tuple) and len(v) == 2
                run.prove(ok, "a key and a result are delivered")
                if ok:
                    prove_same(run, v[0], key, "the key is the awaitable's own")
                    prove_same(run, v[1], ended[2], "the result is the awaitable's own")
            else:
                prove_same(run, v, ended[2], "the value is the awaitable's own result")


CONSUMER = """
async def consume(it):
    for aw in it:
        try:
            v = await aw
        except BaseException as e:
            note("exc", e)
        else:
            note("ok", v)

async def consume_async(it):
    async for v in it:
        note("ok", v)
"""


def contracts():
    return [
        Completed(what, aiter, rexc, tqdm)
        for what in ("awaitables", "a mapping")
        for aiter in (False, True)
        for rexc in ("absent", "off", "on")
        for tqdm in (False, True)
    ]
