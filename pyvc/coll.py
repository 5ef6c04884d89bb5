"""Collections of arbitrarily many elements, known at one generic element.

A family stands for n >= 1 elements; `g` is any one of them.  A collection over the family (GColl) holds, in some order (`order`: a tag), what
came of each element: its entries at g (one, or none where a filter left g out).  A loop over such a collection executes its body once, for g:

 * if the body leaves the loop (exception, return, break), g is the element whose iteration left it -- every execution that leaves its loop
   early does so at one element, which is generic;
 * if it does not, no iteration did, and what holds of g after the loop holds of every element.

This is exhaustive as long as iterations do not communicate except through lists and dicts they add to; any other write to state older than the
loop makes the value unknown afterwards (local variables) or is refused (objects).  Lists and dicts that were empty and are added to become
collections over the same family, in the order of the loop."""
import z3

from .values import *
from . import engine as E
from .engine import UNSET, Poison, SInt, Unsupported, is_true, zbool


class Family:
    def __init__(self, run, name, key=None):
        self.name, self.key = name, key  # key: what identifies g, where elements have distinct keys
        self.pinned = False
        self.spans = []  # what was created in a loop over the family is the element's own
        self.n = run.fresh("n_" + name, "int")
        run.assume(self.n.t >= 1)

    def __repr__(self):
        return f"family {self.name}"


class GColl(Heap):
    def __init__(self, fam, entries, order, kind="list"):
        self.fam, self.entries, self.order, self.kind = fam, list(entries), order, kind
        self.finished, self.ending = False, None
        self.whole = True  # an entry for every element (else some were left out, maybe all)
        self.cls = {"list": Ext("builtins.list", list), "tuple": Ext("builtins.tuple", tuple), "set": Ext("builtins.set", set)}.get(kind, Ext("builtins.object", object))

    def __repr__(self):
        return f"{self.kind} over {self.fam}: {self.entries} in {self.order}"

    def length(self, run):
        if self.whole and len(self.entries) == 1:
            return self.fam.n.t
        raise Unsupported("length of a filtered collection")

    def truth(self, run):
        if self.entries:
            return True
        return z3.Bool(run.fresh_name("others_present"))

    def getitem(self, run, k):
        if k == 0 and self.whole and len(self.entries) == 1:
            if run.branch(self.fam.n.t == 1):
                return self.entries[0]
            return run.fresh("first_element")
        raise Unsupported(f"[{k!r}] of {self!r}")

    def ghost(self):
        return self

    def isinstance(self, run, cls):
        if isinstance(cls, Ext) and isinstance(cls.pyobj, type):
            return issubclass(self.cls.pyobj, cls.pyobj)
        return False



class GDict(Heap):
    """a dict with (at g) the entries (key, value), each under its own element's key"""

    kind = "dict"
    cls = Ext("builtins.dict", dict)

    def __init__(self, fam, entries, order):
        self.fam, self.entries, self.order = fam, list(entries), order
        self.whole = True

    def ghost(self):
        return GColl(self.fam, [k for k, v in self.entries], self.order)

    def truth(self, run):
        return True if self.entries else z3.Bool(run.fresh_name("others_present"))

    def length(self, run):
        if self.whole and len(self.entries) == 1:
            return self.fam.n.t
        raise Unsupported("length of a filtered dict")

    def own(self, run, k):
        t = run.same(k, self.fam.key)
        if is_true(t) or run.holds(zbool(t)):
            return True
        raise Unsupported(f"lookup of another element's key in {self!r}")

    def contains(self, run, k):
        self.own(run, k)
        return bool(self.entries)

    def getitem(self, run, k):
        self.own(run, k)
        if not self.entries:
            run.raise_("KeyError")
        return self.entries[0][1]

    def getattr(self, run, name):
        g = GColl(self.fam, [], self.order)
        if name == "items":
            g.entries = list(self.entries)
        elif name == "values":
            g.entries = [v for k, v in self.entries]
        elif name == "keys":
            g.entries = [k for k, v in self.entries]
        elif name == "get":
            return Native("get", lambda r, a, k: self.getitem(r, a[0]) if self.contains(r, a[0]) else (a[1] if len(a) > 1 else None))
        elif name == "__getitem__":
            return Native(name, lambda r, a, k: self.getitem(r, a[0]))
        else:
            return UNSET
        g.whole = self.whole
        return Native(name, lambda r, a, k: g)


class GMap(GDict):
    """a mapping of the user's: distinct keys, in its own order"""

    def __init__(self, run, name, key, value):
        super().__init__(Family(run, name, key), [(key, value)], "input")


def ghost_of(v):
    g = getattr(v, "g", None)
    if g is not None:
        return g
    if isinstance(v, (GColl, GDict)):
        return v.ghost() if isinstance(v, GDict) else v
    return None


class Broken(Heap):
    """a list or dict some of whose elements were added before its loop was left"""

    def __getattr__(self, name):
        raise Unsupported("a partly filled collection is used")


class Loop:
    def __init__(self, run, coll):
        self.coll, self.fam, self.order = coll, coll.fam, coll.order
        self.serial0, self.env0 = run.nserial, Env.count
        self.added = {}  # id -> (object, [entries at g])


class GInfo:
    """what is known of a loop from earlier explorations"""

    def __init__(self):
        self.targets = []  # where the collections it adds to are found
        self.written = []  # variables its iterations write


def sites(run, fr):
    """(name of the place, environments searched there)"""
    yield ("here",), list(chain(fr.env))
    for i, (o, f) in enumerate(reversed(run.consumers)):
        yield ("consumer", i), (list(chain(f.env)) if f is not None else [])


def find_target(run, fr, o):
    for i, (x, f) in enumerate(reversed(run.consumers)):
        if x is o:
            return ("out", i)
    for key, envs in sites(run, fr):
        for j, e in enumerate(envs):
            for n, v in e.vars.items():
                if v is o:
                    return key + (j, n)
    return None


def place(run, fr, key):
    if key[0] == "out":
        cs = list(reversed(run.consumers))
        return cs[key[1]][0] if key[1] < len(cs) else None
    for k, envs in sites(run, fr):
        if k == key[:-2]:
            return envs[key[-2]] if key[-2] < len(envs) else None
    return None


def chain(e):
    while e is not None:
        yield e
        e = e.parent


def active(run, o):
    """the outermost loop over a family that began when o existed"""
    for lp in run.ghost_loops:
        if o.serial is not None and o.serial <= lp.serial0:
            return lp
    return None


def is_empty(l):
    if isinstance(l, ListObj):
        return l.items == [] and getattr(l, "g", None) is None
    if isinstance(l, DictObj):
        return not l.entries and l.rest is None and getattr(l, "g", None) is None
    return False


def iterate(run, st, coll, body, fr, is_async):
    """a loop over a collection known at g"""
    ending = consume(run, coll, False)
    key = ("ghost", fr.qualname, getattr(st, "lineno", 0), getattr(st, "col_offset", 0))
    info = run.v.loops.get(key)
    if info is None:
        info = run.v.loops[key] = GInfo()
    lp = Loop(run, coll)
    for k in info.targets:
        e = place(run, fr, k)
        o = e if k[0] == "out" else (e.vars.get(k[-1]) if e is not None else None)
        if isinstance(o, (ListObj, DictObj)) and o.serial is not None and active(run, o) is None and is_empty(o):
            lp.added[id(o)] = (o, [])
    for k in info.written:
        e = place(run, fr, k)
        if e is not None and k[-1] in e.vars and not any(e.vars[k[-1]] is o for o, _ in lp.added.values()):
            run.write(e, k[-1], Poison(f"{k[-1]} in a loop over arbitrarily many elements"))
    if getattr(fr, "comp", False) and run.consumers and run.consumers[-1][1] is fr and run.consumers[-1][0] is not None and is_empty(run.consumers[-1][0]) and active(run, run.consumers[-1][0]) is None:
        o = run.consumers[-1][0]
        lp.added[id(o)] = (o, [])
    lp.info, lp.fr = info, fr
    mark = len(run.mutations)
    run.loopstack.append(("ghost", len(run.trace)))
    run.ghost_loops.append(lp)
    last = False
    try:
        for x in list(coll.entries):
            body(x)
        last = True
        if ending:
            ending(run)
    except (E.PyExc, E.ReturnSig, E.BreakSig, E.GenClose):
        if not last:
            pin(run, coll.fam)
        for o, vals in lp.added.values():
            o.g = Broken()
        raise
    finally:
        run.ghost_loops.pop()
        run.loopstack.pop()
        coll.fam.spans.append((lp.serial0, run.nserial, lp.env0, Env.count))
    muts = run.mutations[mark:]
    for o, k in muts:
        if isinstance(o, Env):
            if o.count > lp.env0 or getattr(o, "is_comp", False) or any(a < o.count <= b for _, _, a, b in coll.fam.spans):
                continue
            v = o.vars.get(k)
            if any(v is x for x, _ in lp.added.values()):
                continue
            for key2, envs in sites(run, fr):
                j = next((j for j, e in enumerate(envs) if e is o), None)
                if j is not None:
                    if key2 + (j, k) not in info.written:
                        info.written.append(key2 + (j, k))
                        run.v.changed = True
                    break
            else:
                raise Unsupported(f"a loop over arbitrarily many elements writes to {k} of an unknown scope")
            if not isinstance(v, Poison):
                run.write(o, k, Poison(f"{k} after a loop over arbitrarily many elements"))
            continue
        if getattr(o, "serial", None) is None or o.serial > lp.serial0 or any(a < o.serial <= b for a, b, _, _ in coll.fam.spans):
            continue  # created for this element
        if o is run.ghost or any(o is x for x, _ in lp.added.values()):
            continue
        ok = run.hooks.get("ghost_owned")
        if ok and ok(run, o, k):
            continue
        raise Unsupported(f"a loop over arbitrarily many elements writes to {o!r}.{k} at {run.where()}")
    for o, vals in lp.added.values():
        finish(run, o, vals, coll)


def consume(run, coll, end=True):
    """a generator is read, once; what it does after its last element (fail, say) is .ending"""
    if coll.kind != "generator":
        return None
    if coll.finished:
        raise Unsupported("a generator is consumed twice")
    coll.finished = True
    if end and coll.ending:
        coll.ending(run)
    return coll.ending


def zipped(run, gs):
    g = gs[0]
    if any(x.fam is not g.fam or x.order != g.order or not x.whole or len(x.entries) != 1 for x in gs):
        raise Unsupported("zip of collections that are not known to correspond")
    for x in gs:
        consume(run, x)
    return run.new(GColl(g.fam, [tuple(x.entries[0] for x in gs)], g.order, "generator"))


def sort(run, g, key, reverse, out):
    """the built-in sort: the key asked once per element; a stable permutation by it.  The order says by what g was sorted"""
    if len(g.entries) != 1 or not g.whole:
        raise Unsupported("sorting a filtered collection")
    consume(run, g)
    x = g.entries[0]
    try:
        by = run.call(key, [x], {}) if key is not None else x
    except E.PyExc:
        pin(run, g.fam)
        raise
    rev = reverse if isinstance(reverse, bool) else run.truth(reverse)
    finish(run, out, [x], g)
    out.g.order = ("sorted", by, rev, g.order)
    return out


def pin(run, fam):
    """g is from here on the one element something happened to"""
    if fam.pinned:
        raise Unsupported("two loops over the same elements are left early")
    fam.pinned = True


def finish(run, o, vals, coll):
    if isinstance(o, ListObj):
        o.g = run.new(GColl(coll.fam, vals, coll.order))
        o.items, o.seq = None, None
    else:
        for k, v in vals:
            if coll.fam.key is None:
                raise Unsupported("a dict over a family without keys")
            t = run.same(k, coll.fam.key)
            run.prove(t, "every entry is under its own element's key")
        o.g = run.new(GDict(coll.fam, vals, coll.order))
    o.g.whole = coll.whole and len(vals) == 1


def register(run, o):
    """the list of o's entries at g, if it is being filled by a loop over a family"""
    if not run.ghost_loops:
        return None
    lp = active(run, o)
    if lp is None:
        return None
    if id(o) not in lp.added:
        if not is_empty(o):
            raise Unsupported("a loop over a family adds to a collection that is not empty")
        k = find_target(run, lp.fr, o)
        if k is None:
            raise Unsupported(f"a loop over a family adds to a collection of an unknown place, at {run.where()}")
        if k not in lp.info.targets:
            lp.info.targets.append(k)
            run.v.changed = True
        lp.added[id(o)] = (o, [])
    return lp.added[id(o)][1]


def append_hook(run, l, v):
    """True if taken care of"""
    if getattr(l, "g", None) is not None:
        raise Unsupported("append to a collection over a family")
    at = register(run, l)
    if at is None:
        return False
    at.append(v)
    return True


def setitem_hook(run, d, k, v):
    if getattr(d, "g", None) is not None:
        raise Unsupported("item assignment to a dict over a family")
    at = register(run, d)
    if at is None:
        return False
    at.append((k, v))
    return True
