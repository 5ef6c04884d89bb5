"""Any number of awaitables, known at a generic one (pyvc/coll.py), and what asyncio and tqdm do with them (trusted):

 * asyncio.gather: awaits all; the results in input order, or the exception of the first that failed (with return_exceptions: exceptions as values)
 * asyncio.as_completed(fs, timeout): for every awaitable, as it completes, one awaitable that ends as that one; TimeoutError instead for what is
   not there in time
 * tqdm_asyncio.gather / as_completed: the same with a progress bar, its keywords are the bar's; gather knows no return_exceptions"""
import collections.abc

from pyvc.coll import Family, GColl, GDict, GMap, ghost_of, pin
from .common import *
from .tasks import EXC


class Awaitable:
    """an awaitable of the user's; one await of it: an arbitrary outcome"""

    def __init__(self, kind="arbitrary"):
        self.kind = kind

    def truth(self, run, o):
        return True

    def isawaitable(self, run, o):
        return True

    def getattr(self, run, o, name):
        return UNSET

    def isinstance(self, run, o, c):
        if isinstance(c, Ext) and isinstance(c.pyobj, type) and issubclass(c.pyobj, collections.abc.Mapping):
            return False
        return None

    def await_(self, run, o):
        run.event("user", o)
        run.rely()
        k = run.fork("it returns", "it raises")
        if k == 0:
            r = run.fresh("result")
            run.event("user-ret", o, r)
            return r
        e = run.fresh_exc("error")
        if run.hooks.get("aw_exc"):
            run.assume(zbool(run.isinstance_(e, Ext("builtins.Exception", Exception))))
        run.event("user-exc", o, e)
        raise PyExc(e)


AW = Awaitable()


class Later(Val):
    """what as_completed yields: ends as the awaitable it stands for, or with TimeoutError"""

    def __init__(self, aw, timeout):
        self.aw, self.timeout = aw, timeout
        self.cls = Ext("types.CoroutineType", __import__("types").CoroutineType)

    def isawaitable(self, run):
        return True

    def await_(self, run):
        if self.timeout is not None:
            if run.fork("in time", "timed out") == 1:
                run.event("timeout", self.timeout)
                run.raise_("TimeoutError")
        return run.await_(self.aw)


class Gathered(Val):
    def __init__(self, elems, rexc):
        self.elems, self.rexc = elems, rexc
        self.cls = Ext("asyncio.Future", __import__("asyncio").Future)

    def isawaitable(self, run):
        return True

    def await_(self, run):
        if isinstance(self.elems, GColl):
            c = self.elems
            if not c.entries:
                raise Unsupported("gather of a filtered collection")
            vals = []
            for x in c.entries:
                vals.append(settle(run, x, self.rexc, c.fam))
            l = run.list([])
            from pyvc.coll import finish

            finish(run, l, vals, c)
            return l
        return run.list([settle(run, x, self.rexc, None) for x in self.elems])


def settle(run, x, rexc, fam):
    try:
        return run.await_(x)
    except PyExc as e:
        if rexc is not False and (rexc is True or run.truth(rexc)):
            return e.value
        if fam is not None:
            pin(run, fam)
        raise


def elements(run, fs):
    """list of the elements of an iterable, or the collection"""
    c = run.concrete_iter(fs)
    if c is not None:
        return c
    g = ghost_of(fs)
    if g is None:
        raise Unsupported(f"elements of {fs!r}")
    from pyvc.coll import consume

    consume(run, g)
    return g


def star_elements(run, a):
    if len(a) == 1 and isinstance(a[0], StarArgs):
        if isinstance(a[0].seq, GColl):
            return a[0].seq
        raise Unsupported("gather of an unknown sequence")
    if any(isinstance(x, StarArgs) for x in a):
        raise Unsupported("gather of a mixed argument list")
    return list(a)


def completing(run, elems, timeout):
    run.event("as_completed", elems, timeout)
    if isinstance(elems, list):
        return run.list([Later(x, timeout) for x in elems]) if len(elems) <= 1 else run.raise_unsupported("as_completed of several known awaitables")
    g = run.new(GColl(elems.fam, [Later(x, timeout) for x in elems.entries], "completion", "generator"))
    g.whole = elems.whole
    return g


class SourceIter(Val):
    """an ASyncIterator, by the contract C16 proves: iterating it iterates what it wraps"""

    def __init__(self, cls, src):
        self.cls, self.src = cls, src

    def iterated(self, run, is_async):
        return self.src


def install(run):
    def gather(r, f, a, k):
        k = dict(k)
        rexc = k.pop("return_exceptions", False)
        if k:
            r.raise_("TypeError", f"gather() got an unexpected keyword argument {list(k)}")
        e = star_elements(r, a)
        r.event("gather", e)
        return Gathered(e, rexc)

    def tqdm_gather(r, f, a, k):
        r.event("tqdm", dict(k))
        e = star_elements(r, a)
        return Gathered(e, False)

    def as_completed(r, f, a, k):
        k = dict(k)
        timeout = k.pop("timeout", None)
        if k or len(a) != 1:
            r.raise_("TypeError", "as_completed()")
        return completing(r, elements(r, a[0]), timeout)

    def tqdm_as_completed(r, f, a, k):
        k = dict(k)
        timeout = k.pop("timeout", None)
        r.event("tqdm", k)
        return completing(r, elements(r, a[0]), timeout)

    table = {"asyncio.gather": gather, "asyncio.tasks.gather": gather, "asyncio.as_completed": as_completed, "asyncio.tasks.as_completed": as_completed,
             "tqdm.asyncio.tqdm_asyncio.gather": tqdm_gather, "tqdm.asyncio.tqdm_asyncio.as_completed": tqdm_as_completed}
    old = run.hooks.get("ext_call")

    def ext_call(r, f, a, k):
        h = table.get(f.path)
        if h is not None:
            return h(r, f, a, k)
        return old(r, f, a, k) if old else UNSET

    run.hooks["ext_call"] = ext_call
    run.summaries.update({"new:a_sync.iter:ASyncIterator": lambda r, c, a, k: SourceIter(c, a[0])})


def some_awaitables(run, kind="list"):
    """(the collection, its generic element or None): none at all, or n >= 1"""
    if run.fork("some", "none") == 1:
        return None, None
    fam = Family(run, "awaitables")
    x = run.fresh("awaitable")
    x.model = AW
    return run.new(GColl(fam, [x], "input", kind)), x


def some_mapping(run):
    k, x = run.fresh("key"), run.fresh("awaitable")
    x.model = AW
    m = run.new(GMap(run, "items", k, x))
    m.cls = Ext("collections.abc.Mapping", collections.abc.Mapping)
    return m, k, x


def result_entries(run, v, order):
    """(collection, entries at g) of a result"""
    return ghost_of(v)
