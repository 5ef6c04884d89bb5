"""gather: for any number of awaitables, known at a generic one: its result is there, in its own place or under its own key, unless the
predicate rejects it; the first failure propagates, or exceptions are results."""
from .collect import *

G = "a_sync.asyncio.gather:"
A = "a_sync.asyncio.as_completed:"
FUNCS = [G + n for n in ("gather", "gather_mapping", "_is_mapping", "_exc_wrap")] + [A + n for n in ("as_completed", "as_completed_mapping", "__mapping_wrap", "__yield_as_completed", "_exc_wrap")]

ASSUMES = (
    "asyncio.gather, asyncio.as_completed and tqdm's wrappers do what contracts/collect.py says (asyncio, tqdm)",
    "an ASyncIterator iterates what it wraps (proved as C16)",
    "collections of n >= 1 elements are known at one generic element; loops over them are run once for it (pyvc/coll.py)",
    "with return_exceptions, failures are subclasses of Exception (the property is about failures, not about cancellation)",
)


class Gather(Contract):
    functions = FUNCS
    assumes = ASSUMES

    def __init__(self, what, rexc, tqdm):
        self.what, self.rexc, self.tqdm = what, rexc, tqdm
        self.name = f"gather of {what}, return_exceptions {rexc}, tqdm {tqdm}"
        self.must_cover = ["result kept", "result left out", "no predicate", "nothing to gather"] + (["exception as result"] if rexc == "on" else ["failure propagates"])

    def run(self, run):
        install(run)
        fn = run.world.fn(G + "gather")
        kw = {}
        if self.rexc != "absent":
            kw["return_exceptions"] = self.rexc == "on"
        bar = {}
        if self.tqdm:
            kw["tqdm"] = True
            if run.fork("no bar keywords", "bar keywords") == 1:
                bar = {"desc": run.fresh("desc")}
                kw.update(bar)
        elif run.fork("tqdm not given", "tqdm off") == 1:
            kw["tqdm"] = False
        pred = None
        if run.fork("no predicate", "a predicate") == 1:
            pred = UserFn("predicate", False)
            kw["exclude_if"] = pred
        else:
            if run.fork("absent", "None") == 1:
                kw["exclude_if"] = None
            run.cover("no predicate")
        if self.rexc == "on":
            run.hooks["aw_exc"] = True
        mapping = self.what == "a mapping"
        args = []
        key = x = None
        if mapping:
            if run.fork("some", "none") == 1:
                args = [run.new(EmptyMap())]
            else:
                m, key, x = some_mapping(run)
                args = [m]
        else:
            c, x = some_awaitables(run)
            if c is not None:
                args = [StarArgs(c)]
                f = c.fam
                # a single awaitable is no mapping
        out = outcome_of(run, lambda: run.await_(run.call(fn, args, kw)))
        got = [e for e in run.trace if e[0] in ("user-ret", "user-exc") and e[1] is x] if x is not None else []
        runs = [e for e in run.trace if e[0] == "user" and e[1] is x] if x is not None else []
        asked = [e for e in run.trace if e[0] == "user" and e[1] is pred] if pred else []
        if self.tqdm and not (mapping and x is None and not any(e[0] == "tqdm" for e in run.trace)):
            run.prove([e for e in run.trace if e[0] == "tqdm"] != [], "a progress bar is shown when asked for")
        for e in run.trace:
            if e[0] == "tqdm":
                run.prove(bool(self.tqdm), "a progress bar only when asked for")
                k2 = dict(e[1])
                run.prove(set(k2) == set(bar), "the bar gets exactly the caller's keywords")
                for n in bar:
                    if n in k2:
                        prove_same(run, k2[n], bar[n], "the bar's keyword")
            if e[0] == "timeout":
                run.prove(False, "gather has no timeout")
        if x is None:
            run.cover("nothing to gather")
            run.prove(out[0] == "ret", "gather of nothing succeeds")
            if out[0] == "ret":
                c = run.concrete_iter(out[1])
                run.prove(c == [], "gather of nothing gives nothing")
                run.prove(isinstance(out[1], DictObj if mapping else ListObj), "a dict for a mapping, a list otherwise")
            return
        run.prove(len(runs) == 1, "every awaitable is awaited exactly once")
        if not got:
            return run.prove(False, "every awaitable is awaited to its end")
        ended = got[0]
        if ended[0] == "user-exc" and self.rexc != "on":
            run.cover("failure propagates")
            prove_outcome(run, out, ("exc", ended[2]), "a failure propagates as it is")
            return
        p = user_outcome(run, pred) if pred else None
        if p is not None and p[0] == "exc":
            prove_outcome(run, out, p, "the predicate's own failure propagates")
            return
        run.prove(out[0] == "ret", "gather succeeds when no awaitable fails or exceptions are results")
        if out[0] != "ret":
            return
        if ended[0] == "user-exc":
            run.cover("exception as result")
        val = ended[2]
        if pred is not None:
            run.prove(len(asked) == 1, "the predicate is asked once per result")
            for e in asked:
                run.prove(len(e[2]) == 1 and not e[3], "the predicate gets the result alone")
                if len(e[2]) == 1:
                    prove_same(run, e[2][0], val, "the predicate is asked about the result")
            keep = z3.Not(zbool(run.truth_term(p[1]))) if p else None
            if keep is None:
                return
            kept = run.branch(keep)
        else:
            kept = True
        run.cover("result kept" if kept else "result left out")
        r = ghost_of(out[1])
        if mapping:
            d = getattr(out[1], "g", out[1])
            ok = isinstance(d, GDict)
            run.prove(ok, "a mapping gives a dict")
            if not ok:
                return
            run.prove(d.fam is args[0].fam, "the dict has the mapping's keys")
            run.prove(len(d.entries) == (1 if kept else 0), "the key is there, once, exactly if its result is not excluded")
            for k, v in d.entries:
                prove_same(run, k, key, "the entry is under the awaitable's own key")
                prove_same(run, v, val, "the entry is the awaitable's own result")
        else:
            run.prove(isinstance(out[1], ListObj) and isinstance(r, GColl), "a list of results")
            if not isinstance(r, GColl):
                return
            run.prove(r.fam is c.fam and r.order == "input", "the results are in the order of the awaitables")
            run.prove(len(r.entries) == (1 if kept else 0), "a result is there, once, exactly if it is not excluded")
            for v in r.entries:
                prove_same(run, v, val, "the awaitable's own result")


class EmptyMap(DictObj):
    def __init__(self):
        super().__init__({})
        self.cls = Ext("collections.abc.Mapping", collections.abc.Mapping)


def contracts():
    out = []
    for what in ("awaitables", "a mapping"):
        for rexc in ("absent", "off", "on"):
            for tqdm in (False, True):
                out.append(Gather(what, rexc, tqdm))
    return out
