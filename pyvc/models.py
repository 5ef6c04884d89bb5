"""Models of builtins and of the parts of the standard library that the verified functions use.

Everything here is trusted: it states what CPython does.  The drivers (drivers/*.py) run the real functions on the real
interpreter and so cross-check these models.
"""
import types

import z3

from .frontend import Unsupported
from .values import *
from . import engine as E
from .engine import UNSET, PyExc, num_term, str_term, is_true, is_false, zbool, znot, zand, zor

BUILTINS = {"NULL": None}


def native(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = Native(n, f)
        return f

    return deco


def set_add(run, s, x):
    for p, y in s.items:
        t = run.eq(x, y)
        if is_true(t):
            items = [((True if y2 is y else p2), y2) for p2, y2 in s.items]
            run.write(s, "#", tuple(items))
            return
    for p, y in s.items:
        t = run.eq(x, y)
        if not is_false(t) and run.branch(zand(p, t)):
            return
    run.write(s, "#", tuple(s.items) + ((True, x),))


# ------------------------------------------------------------------ builtins
@native("isinstance")
def b_isinstance(run, a, k):
    t = run.isinstance_(a[0], a[1])
    return t if isinstance(t, bool) else SBool(t)


@native("issubclass")
def b_issubclass(run, a, k):
    c = a[1] if isinstance(a[1], tuple) else (a[1],)
    if isinstance(a[0], SV):
        return run.opaque_op("issubclass", list(a))
    return any(run.subclass(a[0], run.unwrap_cls(x)) for x in c)


@native("callable")
def b_callable(run, a, k):
    v = a[0]
    if isinstance(v, (Closure, Native, Bound, Cls, Ext)):
        return True
    if isinstance(v, Obj):
        return run.class_attr(v.cls, "__call__") is not UNSET
    if isinstance(v, SV):
        return SBool(z3.Function("callable", V, z3.BoolSort())(v.t))
    return False


@native("__cstruct__")
def b_cstruct(run, a, k):
    return CStruct(a[0], a[1])


class Record(Heap):
    """an immutable record"""

    def __init__(self, name, fields):
        self.name, self.fields = name, dict(fields)

    def truth(self, run):
        return True

    def getattr(self, run, name):
        return self.fields.get(name, E.UNSET)


@native("len")
def b_len(run, a, k):
    v = a[0]
    if isinstance(v, Obj) and v.fields.get("#dict", UNSET) is not UNSET and run.class_attr(v.cls, "__len__") is UNSET:
        v = v.fields["#dict"]
    if getattr(v, "g", None) is not None and isinstance(v, (ListObj, DictObj)):
        return SInt(v.g.length(run))
    if isinstance(v, (str, tuple, bytes)):
        return len(v)
    if isinstance(v, ListObj):
        return len(v.items) if v.items is not None else SInt(z3.Length(v.seq))
    if isinstance(v, DictObj) and v.rest is None:
        n, extra = 0, []
        for p, _ in v.entries.values():
            if is_true(p):
                n += 1
            elif not is_false(p):
                extra.append(z3.If(p, 1, 0))
        return SInt(z3.simplify(z3.Sum([z3.IntVal(n)] + extra))) if extra else n
    if isinstance(v, SetObj):
        n, extra = 0, []
        for p, _ in v.items:
            if is_true(p):
                n += 1
            elif not is_false(p):
                extra.append(z3.If(p, 1, 0))
        return SInt(z3.simplify(z3.Sum([z3.IntVal(n)] + extra))) if extra else n
    if hasattr(v, "length"):
        n = v.length(run)
        return n if isinstance(n, int) else SInt(n)
    if isinstance(v, Obj):
        return run.call(run.getattr_(v, "__len__"), [], {})
    if isinstance(v, SBytes):
        n = run.fresh("nbytes", "int")
        run.assume(z3.And(n.t >= 0, n.t < 2**62))
        return n
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, SV) and hasattr(v.model, "length"):
        n = v.model.length(run, v)
        return n if isinstance(n, (int, Val)) else SInt(n)
    if isinstance(v, SV):
        n = z3.Function("len_of", V, z3.IntSort())(v.t)
        run.assume(n >= 0)
        return SInt(n)
    raise Unsupported(f"len of {v!r}")


def _loop(run, it, fn, label):
    """iterate any iterable value, calling fn(x); fn may raise StopLoop"""
    import ast

    fr = run.frames[-1] if run.frames else E.Frame(run, E.Env(), None, None, "<top>", None)
    fake = ast.For(None, None, [], [])
    fake.lineno, fake.col_offset = fr.lineno, abs(hash(label)) % 1000 + 5000
    run.iterate(fake, it, fn, fr, False)


class _Stop(E.BreakSig):
    pass


@native("any")
def b_any(run, a, k):
    def f(x):
        if run.truth(x):
            raise _Stop()

    try:
        _loop(run, a[0], f, "any")
    except _Stop:
        return True
    return False


@native("all")
def b_all(run, a, k):
    def f(x):
        if not run.truth(x):
            raise _Stop()

    try:
        _loop(run, a[0], f, "all")
    except _Stop:
        return False
    return True


@native("list")
def b_list(run, a, k):
    if not a:
        return run.list([])
    v = a[0]
    c = copied(run, v, "list")
    if c is not UNSET:
        return c
    if isinstance(v, ListObj) and v.items is None:
        return run.new(ListObj(seq=v.seq, elem=v.elem))
    if hasattr(v, "to_list"):
        return v.to_list(run)
    c = run.concrete_iter(v)
    if c is not None:
        return run.list(c)
    g = E.coll.ghost_of(v)
    if g is not None:
        l = run.list([])
        E.coll.consume(run, g)
        E.coll.finish(run, l, list(g.entries), g)
        return l
    if hasattr(v, "as_seq"):
        s, el = v.as_seq(run)
        return run.new(ListObj(seq=s, kind="list", elem=el))
    out = run.list([])
    _loop(run, v, lambda x: run.list_append(out, x), "list")
    return out


def copied(run, v, kind):
    """collections that know what copies of them are"""
    if isinstance(v, Obj) and v.fields.get("#dict", UNSET) is not UNSET and run.class_attr(v.cls, "__iter__") is UNSET:
        v = v.fields["#dict"]
    return v.copy_as(run, kind) if hasattr(v, "copy_as") else UNSET


@native("tuple")
def b_tuple(run, a, k):
    if not a:
        return ()
    v = a[0]
    c = copied(run, v, "tuple")
    if c is not UNSET:
        return c
    if isinstance(v, (E.StarArgs, E.StarTuple)):
        return v
    c = run.concrete_iter(v)
    if c is not None:
        return tuple(c)
    g = E.coll.ghost_of(v)
    if g is not None:
        t = E.coll.GColl(g.fam, list(g.entries), g.order, "tuple")
        t.whole = g.whole
        return run.new(t)
    if isinstance(v, ListObj):
        return run.new(ListObj(seq=v.seq, kind="tuple", elem=v.elem))
    if hasattr(v, "as_seq"):
        s, el = v.as_seq(run)
        return run.new(ListObj(seq=s, kind="tuple", elem=el))
    out = run.list([], kind="tuple")
    _loop(run, v, lambda x: run.list_append(out, x), "tuple")
    return out


@native("set", "frozenset")
def b_set(run, a, k):
    if not a:
        h = run.hooks.get("new_set")
        return h(run) if h else run.new(SetObj())
    v = a[0]
    c = copied(run, v, "set")
    if c is not UNSET:
        return c
    if isinstance(v, DictObj) and v.rest is not None:
        return OpenSet(run, v)
    if isinstance(v, DictObj):
        return run.new(SetObj([(p, kk) for kk, (p, _) in v.entries.items()]))
    if isinstance(v, SetObj):
        return run.new(SetObj(v.items))
    if hasattr(v, "to_set"):
        return v.to_set(run)
    out = run.new(SetObj())
    c = run.concrete_iter(v)
    if c is None:
        raise Unsupported(f"set of {v!r}")
    for x in c:
        set_add(run, out, x)
    return out


class OpenSet(Val):
    """set(kwargs) of an open dict; only intersections with closed sets and membership are defined"""

    def __init__(self, run, d):
        self.d = d

    def contains(self, run, x):
        return run.contains(self.d, x)


@native("dict")
def b_dict(run, a, k):
    if a and not k:
        c = copied(run, a[0], "dict")
        if c is not UNSET:
            return c
    d = run.new(DictObj())
    if a:
        v = a[0]
        if isinstance(v, (DictObj,)) or hasattr(v, "as_dict") or isinstance(v, Obj):
            run.dict_update(d, v)
        else:
            c = run.concrete_iter(v)
            if c is None:
                raise Unsupported(f"dict of {v!r}")
            for x in c:
                kk, vv = run.unpack(x, 2)
                run.setitem(d, kk, vv)
    rest = k.pop("**", None) if "**" in k else None
    for kk, vv in k.items():
        run.setitem(d, kk, vv)
    if rest is not None:
        run.write(d, "#", (tuple(d.entries.items()), rest))
    return d


@native("bool")
def b_bool(run, a, k):
    if not a:
        return False
    t = run.truth_term(a[0])
    return t if isinstance(t, bool) else SBool(t)


@native("int")
def b_int(run, a, k):
    v = a[0] if a else 0
    if isinstance(v, (int, float)):
        return int(v)
    if isinstance(v, SInt):
        return v
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, 1, 0))
    if isinstance(v, SReal):
        return SInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
    return run.opaque_op("int", [v])


@native("repr")
def b_repr(run, a, k):
    return run.fresh("repr", "str")


@native("float")
def b_float(run, a, k):
    v = a[0] if a else 0.0
    if isinstance(v, (int, float, str)):
        return float(v)
    if isinstance(v, SInt):
        return SReal(z3.ToReal(v.t))
    if isinstance(v, SReal):
        return v
    return run.opaque_op("float", [v])


@native("str")
def b_str(run, a, k):
    if not a:
        return ""
    v = a[0]
    if isinstance(v, (str, int)) and not isinstance(v, bool):
        return str(v)
    if isinstance(v, SStr):
        return v
    if isinstance(v, Obj) and E.is_excobj(run, v) and run.class_attr(v.cls, "__str__") is UNSET:
        ar = v.fields.get("args", ())
        if ar == ():
            return ""
        if len(ar) == 1:
            return b_str(run, [ar[0]], {})
    if isinstance(v, SV) and v.model is not None and getattr(v.model, "ops", False):
        return run.opaque_op("str", [v])
    if isinstance(v, SV):
        return SStr(z3.Function("str_of", V, z3.StringSort())(v.t))
    return run.fresh("str", "str")


@native("bytes")
def b_bytes(run, a, k):
    if not a:
        return b""
    if isinstance(a[0], SV):
        return run.opaque_op("bytes", [a[0]])
    raise Unsupported(f"bytes({a[0]!r})")


@native("type")
def b_type(run, a, k):
    if len(a) == 3:
        raise Unsupported("type() with 3 args")
    t = run.type_of(a[0])
    if t is None:
        if isinstance(a[0], SV):
            return SV(z3.Function("class_of", V, V)(a[0].t))
        raise Unsupported(f"type of {a[0]!r}")
    return t


@native("getattr")
def b_getattr(run, a, k):
    if not isinstance(a[1], str):
        raise Unsupported("getattr with symbolic name")
    if len(a) == 3:
        if isinstance(a[0], SV) and (a[0].model is None):
            h = run.hooks.get("opaque_getattr3")
            if h:
                return h(run, a[0], a[1], a[2])
            has = z3.Function("has_" + a[1], V, z3.BoolSort())(a[0].t)
            if not run.branch(has):
                return a[2]
        return run.getattr_(a[0], a[1], a[2])
    return run.getattr_(a[0], a[1])


@native("hasattr")
def b_hasattr(run, a, k):
    o = a[0]
    if isinstance(o, SV) and o.model is None:
        return SBool(z3.Function("has_" + a[1], V, z3.BoolSort())(o.t))
    try:
        run.getattr_(o, a[1])
        return True
    except PyExc as e:
        if run.exc_matches(e.value, run.exc_class("AttributeError")):
            return False
        raise


@native("setattr")
def b_setattr(run, a, k):
    return run.setattr_(a[0], a[1], a[2])


@native("delattr")
def b_delattr(run, a, k):
    return run.delattr_(a[0], a[1])


@native("id")
def b_id(run, a, k):
    if run.setup:
        run.world._keep.append(a[0])
        return id(a[0]) % 2**31
    t = z3.Function("id_of", V, z3.IntSort())(run.to_V(a[0]))
    run.assume(z3.And(t >= 0, t < 2**62))
    return SInt(t)


@native("hash")
def b_hash(run, a, k):
    return SInt(z3.Function("hash_of", V, z3.IntSort())(run.to_V(a[0])))


@native("hex", "oct")
def b_hex(run, a, k):
    return run.fresh("hex", "str")


@native("round")
def b_round(run, a, k):
    return run.fresh("round")


@native("iter")
def b_iter(run, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return run.call(run.getattr_(v, "__iter__"), [], {})
    if isinstance(v, (Gen, ListObj, tuple, DictObj)) or hasattr(v, "iterator") or hasattr(v, "concrete_iter"):
        return v
    if isinstance(v, SV):
        return run.opaque_op("iter", [v])
    raise Unsupported(f"iter({v!r})")


@native("next")
def b_next(run, a, k):
    v = a[0]
    if isinstance(v, Gen) and not v.started:
        box = []

        def oy(x):
            box.append(x)
            raise E.GenClose(_Stop())

        try:
            run.run_gen(v, oy)
        except E.GenClose as g:
            if isinstance(g.inner, _Stop) and box:
                return box[0]
            raise
        if len(a) > 1:
            return a[1]
        run.raise_("StopIteration")
    if isinstance(v, Obj):
        return run.call(run.getattr_(v, "__next__"), [], {})
    if isinstance(v, Val) and not isinstance(v, Heap) and len(a) == 1 and v.getattr(run, "__next__") is not UNSET:
        return run.call(v.getattr(run, "__next__"), [], {})
    raise Unsupported(f"next({v!r})")


@native("aiter")
def b_aiter(run, a, k):
    return run.call(run.getattr_(a[0], "__aiter__"), [], {})


@native("anext")
def b_anext(run, a, k):
    return run.call(run.getattr_(a[0], "__anext__"), [], {})


@native("enumerate")
def b_enumerate(run, a, k):
    c = run.concrete_iter(a[0])
    if c is None:
        raise Unsupported("enumerate of symbolic")
    return run.list([(i, x) for i, x in enumerate(c)])


@native("zip")
def b_zip(run, a, k):
    cs = [run.concrete_iter(x) for x in a]
    if any(c is None for c in cs):
        gs = [E.coll.ghost_of(x) for x in a]
        if all(g is not None for g in gs):
            return E.coll.zipped(run, gs)
        return Zip(a)
    return run.list([tuple(t) for t in zip(*cs)])


class Zip(Val):
    def __init__(self, parts):
        self.parts = list(parts)


@native("map")
def b_map(run, a, k):
    f = a[0]
    cs = [run.concrete_iter(x) for x in a[1:]]
    if any(c is None for c in cs):
        return MapIter(f, list(a[1:]))
    # lazily in CPython; calls here are ordered the same way when consumed at once
    tuples = list(zip(*cs))

    def r(oy):
        for t in tuples:
            oy(run.call(f, list(t), {}))

    return Gen(r, "<map>", False)


class MapIter(Val):
    def __init__(self, f, srcs):
        self.f, self.srcs = f, srcs


@native("filter")
def b_filter(run, a, k):
    c = run.concrete_iter(a[1])
    if c is None:
        raise Unsupported("filter of symbolic")

    def r(oy):
        for x in c:
            if run.truth(x if a[0] is None else run.call(a[0], [x], {})):
                oy(x)

    return Gen(r, "<filter>", False)


@native("range")
def b_range(run, a, k):
    if all(isinstance(x, int) for x in a):
        return run.list(list(range(*a)))
    if len(a) <= 2 and all(isinstance(x, (int, SInt)) for x in a):
        t = [z3.IntVal(x) if isinstance(x, int) else x.t for x in a]
        return E.RangeVal(t[0] if len(t) == 2 else z3.IntVal(0), t[-1])
    raise Unsupported("symbolic range")


@native("reversed")
def b_reversed(run, a, k):
    c = run.concrete_iter(a[0])
    if c is None:
        if isinstance(a[0], ListObj):
            return E.ReversedList(a[0])
        raise Unsupported("reversed")
    return run.list(list(reversed(c)))


@native("print")
def b_print(run, a, k):
    return None


@native("object")
def b_object(run, a, k):
    return run.new(Obj(Ext("builtins.object", object)))


@native("super")
def b_super(run, a, k):
    return E.SuperObj(a[0], a[1])


@native("property")
def b_property(run, a, k):
    return Prop(a[0] if a else k.get("fget"), a[1] if len(a) > 1 else k.get("fset"))


@native("classmethod")
def b_classmethod(run, a, k):
    return ClassM(a[0])


@native("staticmethod")
def b_staticmethod(run, a, k):
    return StaticM(a[0])


@native("sum")
def b_sum(run, a, k):
    c = run.concrete_iter(a[0])
    if c is None:
        h = run.hooks.get("sum")
        if h:
            return h(run, a, k)
        raise Unsupported("sum of symbolic")
    acc = a[1] if len(a) > 1 else k.get("start", 0)
    for x in c:
        acc = run.binop("Add", acc, x)
    return acc


def _minmax(which):
    def f(run, a, k):
        h = run.hooks.get(which)
        if h:
            r = h(run, a, k)
            if r is not UNSET:
                return r
        c = run.concrete_iter(a[0]) if len(a) == 1 else list(a)
        if c is None:
            raise Unsupported(f"{which} of symbolic")
        if not c:
            if "default" in k:
                return k["default"]
            run.raise_("ValueError", f"{which}() arg is an empty sequence")
        best = c[0]
        for x in c[1:]:
            if run.truth(run.compare("Gt" if which == "max" else "Lt", x, best)):
                best = x
        return best

    return f


native("min")(_minmax("min"))
native("max")(_minmax("max"))


@native("sorted")
def b_sorted(run, a, k):
    h = run.hooks.get("sorted")
    if h:
        r = h(run, a, k)
        if r is not UNSET:
            return r
    c = run.concrete_iter(a[0])
    if c is not None and len(c) <= 1:
        if k.get("key") is not None:
            for x in c:
                run.call(k["key"], [x], {})
        return run.list(c)
    g = E.coll.ghost_of(a[0])
    if g is not None:
        return E.coll.sort(run, g, k.get("key"), k.get("reverse", False), run.list([]))
    if c is not None and all(isinstance(x, (int, str)) for x in c) and not k:
        return run.list(sorted(c))
    raise Unsupported("sorted of symbolic")


def l_sort(run, a, k):
    l = a[0]
    if getattr(l, "g", None) is not None:
        E.coll.sort(run, l.g, k.get("key"), k.get("reverse", False), l)
        return None
    if l.items is not None and len(l.items) <= 1:
        if k.get("key") is not None:
            for x in list(l.items):
                run.call(k["key"], [x], {})
        return None
    raise Unsupported("sort of symbolic")


# ------------------------------------------------------------------ methods of builtin types
def meth(name, f):
    return Native(name, f)


def getattr_builtin(run, o, name):
    if isinstance(o, E.SuperObj):
        return o.lookup(run, name)
    if isinstance(o, ListObj):
        f = globals().get("l_" + name)
        return Bound(Native("list." + name, f), o) if f else _special(run, o, name)
    if isinstance(o, DictObj):
        f = globals().get("d_" + name)
        return Bound(Native("dict." + name, f), o) if f else _special(run, o, name)
    if isinstance(o, SetObj):
        f = globals().get("s_" + name)
        return Bound(Native("set." + name, f), o) if f else _special(run, o, name)
    if isinstance(o, tuple):
        f = globals().get("t_" + name)
        return Bound(Native("tuple." + name, f), o) if f else _special(run, o, name)
    if isinstance(o, (str, bytes)):
        return Native("str." + name, lambda r, a, k: str_method(r, o, name, a, k)) if hasattr(o, name) else UNSET
    if isinstance(o, SStr):
        return Native("str." + name, lambda r, a, k: sstr_method(r, o, name, a, k))
    if isinstance(o, Prop):
        if name == "setter":
            return Native("prop_setter", lambda r, a, k: Prop(o.fget, a[0], o.cached))
        if name == "fget":
            return o.fget
    if isinstance(o, Native):
        if name in ("__name__", "__qualname__"):
            return o.name
        if name == "__doc__":
            return None
        if name == "__call__":
            return o
    if isinstance(o, E.InstDict):
        if name in ("pop",):
            return Native("pop", lambda r, a, k: inst_pop(r, o, a))
        if name == "get":
            return Native("get", lambda r, a, k: o.getitem(r, a[0]) if o.contains(r, a[0]) else (a[1] if len(a) > 1 else None))
        if name == "setdefault":
            return Native("setdefault", lambda r, a, k: o.getitem(r, a[0]) if o.contains(r, a[0]) else (o.setitem(r, a[0], a[1]), a[1])[1])
    if isinstance(o, Coro):
        if name == "close":
            return Native("close", lambda r, a, k: r.event("coro-close", o))
        if not hasattr(types.CoroutineType, name):
            return UNSET
        if name in ("send", "throw"):
            raise Unsupported("coroutine.send")
        if name == "__name__" or name == "__qualname__":
            return o.label
        if name == "__await__":
            return Native("__await__", lambda r, a, k: E.AwaitIter(o))
    if isinstance(o, Gen):
        if name in ("__aiter__", "__iter__"):
            return Native(name, lambda r, a, k: o)
        if name == "__anext__" and o.is_async:
            return Native(name, lambda r, a, k: E.GenNext(o))
    if isinstance(o, (ClassM, StaticM)) and name in ("__func__", "__wrapped__"):
        return o.fn
    if hasattr(o, "getattr"):
        return o.getattr(run, name)
    return UNSET


def _special(run, o, name):
    if name == "__class__":
        return run.type_of(o)
    if name == "__len__":
        return Native("__len__", lambda r, a, k: b_len(r, [o], {}))
    if name in ("__iter__",):
        return Native("__iter__", lambda r, a, k: o)
    if name == "__getitem__":
        return Native("__getitem__", lambda r, a, k: r.getitem(o, a[0]))
    if name == "__setitem__":
        return Native("__setitem__", lambda r, a, k: r.setitem(o, a[0], a[1]))
    if name == "__contains__":
        return Native("__contains__", lambda r, a, k: SBool(zbool(r.contains(o, a[0]))))
    return UNSET


def inst_pop(run, o, a):
    if o.contains(run, a[0]):
        v = o.o.fields[a[0]]
        run.write(o.o, a[0], UNSET)
        return v
    if len(a) > 1:
        return a[1]
    run.raise_("KeyError", a[0])


def str_method(run, s, name, a, k):
    if all(isinstance(x, (str, int, bytes, tuple)) for x in a) and all(isinstance(x, (str, int)) for x in k.values()):
        r = getattr(s, name)(*a, **k)
        if isinstance(r, list):
            return run.list(r)
        return r
    if name == "encode":
        return SBytes(run.fresh("strm", "str").t)
    if name in ("format", "join", "decode", "replace"):
        return run.fresh("strm", "str")
    if name == "endswith" or name == "startswith":
        f = z3.SuffixOf if name == "endswith" else z3.PrefixOf
        return SBool(f(str_term(a[0]), z3.StringVal(s)))
    raise Unsupported(f"str.{name}")


def sstr_method(run, s, name, a, k):
    if name == "startswith" and isinstance(a[0], (str, SStr)):
        return SBool(z3.PrefixOf(str_term(a[0]), s.t))
    if name == "endswith" and isinstance(a[0], (str, SStr)):
        return SBool(z3.SuffixOf(str_term(a[0]), s.t))
    if name == "encode":
        return SBytes(run.fresh("strm", "str").t)
    if name in ("format", "decode", "strip", "lower", "upper", "replace", "join"):
        return run.fresh("strm", "str")
    raise Unsupported(f"symbolic str.{name}")


# list / deque ---------------------------------------------------------------
def l_append(run, a, k):
    run.list_append(a[0], a[1])


def l_appendleft(run, a, k):
    l = a[0]
    if l.items is not None:
        run.write(l, "#", ((a[1],) + tuple(l.items), None))
    else:
        run.write(l, "#", (None, z3.Concat(z3.Unit(run.to_V(a[1])), l.seq)))


def l_extend(run, a, k):
    l, v = a
    c = run.concrete_iter(v)
    if c is not None and l.items is not None:
        run.write(l, "#", (tuple(l.items) + tuple(c), None))
        return
    if isinstance(v, ListObj) or c is not None:
        run.write(l, "#", (None, z3.Concat(run.seq_of(l), run.seq_of(v if isinstance(v, ListObj) else tuple(c)))))
        return
    _loop(run, v, lambda x: run.list_append(l, x), "extend")


def l_insert(run, a, k):
    l = a[0]
    if l.items is not None and isinstance(a[1], int):
        it = list(l.items)
        it.insert(a[1], a[2])
        run.write(l, "#", (tuple(it), None))
        return
    raise Unsupported("insert")


def l_pop(run, a, k):
    l = a[0]
    i = a[1] if len(a) > 1 else -1
    if l.items is not None:
        it = list(l.items)
        try:
            x = it.pop(i)
        except IndexError:
            run.raise_("IndexError", "pop from empty list")
        run.write(l, "#", (tuple(it), None))
        return x
    n = z3.Length(l.seq)
    if not run.branch(n > 0):
        run.raise_("IndexError")
    if i == -1:
        x = l.seq[n - 1]
        rest = z3.SubSeq(l.seq, 0, n - 1)
    elif i == 0:
        x = l.seq[0]
        rest = z3.SubSeq(l.seq, 1, n - 1)
    else:
        raise Unsupported("pop index")
    run.write(l, "#", (None, rest))
    return l.elem(run, x) if l.elem else run.from_V(x)


def l_popleft(run, a, k):
    return l_pop(run, [a[0], 0], k)


def l_clear(run, a, k):
    run.write(a[0], "#", ((), None))


def l_copy(run, a, k):
    return run.list(a[0].items, a[0].seq, a[0].kind)


def concat_parts(s):
    s = z3.simplify(s)
    out = []

    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in x.children():
                go(c)
        elif not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_EMPTY):
            out.append(x)

    go(s)
    return out


def split_at(run, s, t):
    """s == A ++ [t] ++ B with t not in A, when that can be read off s; returns (A, B), None for an empty part"""
    ps = concat_parts(s)
    t = z3.simplify(t)
    j = lambda l: None if not l else l[0] if len(l) == 1 else z3.Concat(*l)
    for i, p in enumerate(ps):
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            if run.holds(p.arg(0) == t):
                return j(ps[:i]), j(ps[i + 1 :])
            if not run.holds(p.arg(0) != t):
                return None
        elif not run.holds(z3.Not(z3.Contains(p, z3.Unit(t)))):
            return None
    return None


def l_remove(run, a, k):
    l, x = a
    if l.items is None:
        # elements of symbolic lists handled here are compared by identity (futures, tasks)
        if not (l.elem or isinstance(x, Heap)):
            raise Unsupported("remove from symbolic list")
        t = run.to_V(x)
        ab = split_at(run, l.seq, t)
        if not ab and not run.branch(z3.Contains(l.seq, z3.Unit(t))):
            run.raise_("ValueError", "list.remove(x): x not in list")
        if ab:
            run.write(l, "#", (None, z3.Concat(*ab) if ab[0] is not None and ab[1] is not None else ab[0] if ab[0] is not None else ab[1] if ab[1] is not None else z3.Empty(SeqV)))
            return
        A, B = run.fresh("before", "seq"), run.fresh("after", "seq")
        run.assume(l.seq == z3.Concat(A, z3.Unit(t), B))
        run.assume(z3.Not(z3.Contains(A, z3.Unit(t))))
        run.write(l, "#", (None, z3.Concat(A, B)))
        return
    for i, y in enumerate(l.items):
        t = run.eq(x, y)
        if is_true(t) or (not is_false(t) and run.branch(t)):
            it = list(l.items)
            del it[i]
            run.write(l, "#", (tuple(it), None))
            return
    run.raise_("ValueError", "list.remove(x): x not in list")


def l_index(run, a, k):
    l, x = a[:2]
    if l.items is None:
        raise Unsupported("index in symbolic list")
    for i, y in enumerate(l.items):
        t = run.eq(x, y)
        if is_true(t) or (not is_false(t) and run.branch(t)):
            return i
    run.raise_("ValueError")


def l_count(run, a, k):
    raise Unsupported("count")


def l_reverse(run, a, k):
    l = a[0]
    if l.items is None:
        raise Unsupported("reverse")
    run.write(l, "#", (tuple(reversed(l.items)), None))


def l_sort(run, a, k):
    h = run.hooks.get("list_sort")
    if h:
        return h(run, a, k)
    l = a[0]
    if l.items is not None and len(l.items) <= 1:
        return
    if getattr(l, "g", None) is not None:
        from . import coll

        coll.sort(run, l.g, k.get("key"), k.get("reverse", False), l)
        return
    raise Unsupported("list.sort")


def t_index(run, a, k):
    for i, y in enumerate(a[0]):
        t = run.eq(a[1], y)
        if is_true(t) or (not is_false(t) and run.branch(t)):
            return i
    run.raise_("ValueError")


def t_count(run, a, k):
    raise Unsupported("count")


# dict -------------------------------------------------------------------------
def d_get(run, a, k):
    d, key = a[0], a[1]
    dflt = a[2] if len(a) > 2 else k.get("default")
    if run.branch(run.contains(d, key)):
        df = getattr(d, "default_factory", None)
        return run.getitem(d, key)
    return dflt


def d_pop(run, a, k):
    d, key = a[0], a[1]
    if run.branch(run.contains(d, key)):
        v = run.getitem(d, key)
        ent = dict(d.entries)
        hit = None
        for kk in ent:
            if (isinstance(key, (str, int, tuple)) or key is None) and isinstance(kk, type(key)) and kk == key or is_true(run.same(kk, key)):
                hit = kk
        if hit is None:
            for kk in ent:
                if run.holds(zbool(run.eq(kk, key))):
                    hit = kk
        if hit is None:
            raise Unsupported("pop of symbolic key")
        ent[hit] = (False, None)
        run.write(d, "#", (tuple(ent.items()), d.rest))
        return v
    if len(a) > 2:
        return a[2]
    raise PyExc(run.mk_exc("KeyError", key))


def d_setdefault(run, a, k):
    d, key = a[0], a[1]
    if run.branch(run.contains(d, key)):
        return run.getitem(d, key)
    v = a[2] if len(a) > 2 else None
    run.setitem(d, key, v)
    return v


def d_update(run, a, k):
    if len(a) > 1:
        run.dict_update(a[0], a[1])
    for kk, vv in k.items():
        if kk != "**":
            run.setitem(a[0], kk, vv)


def _present(run, d):
    if d.rest is not None:
        raise Unsupported("iteration over open dict")
    out = []
    for kk, (p, v) in d.entries.items():
        if is_true(p) or (not is_false(p) and run.branch(p)):
            out.append((kk, v))
    return out


def d_items(run, a, k):
    return run.list([(kk, v) for kk, v in _present(run, a[0])])


def d_keys(run, a, k):
    return run.list([kk for kk, v in _present(run, a[0])])


def d_values(run, a, k):
    return run.list([v for kk, v in _present(run, a[0])])


def d_copy(run, a, k):
    return run.new(DictObj(a[0].entries, a[0].rest))


def d_clear(run, a, k):
    run.write(a[0], "#", ((), None))


def d___delitem__(run, a, k):
    d_pop(run, [a[0], a[1]], {})


def d___iter__(run, a, k):
    return a[0]


# set --------------------------------------------------------------------------
def s_add(run, a, k):
    set_add(run, a[0], a[1])


def s_discard(run, a, k):
    s, x = a
    out = []
    for p, y in s.items:
        t = run.eq(x, y)
        if is_true(t):
            continue
        if not is_false(t) and not is_false(p) and run.branch(zand(p, t)):
            continue
        out.append((p, y))
    run.write(s, "#", tuple(out))


def s_remove(run, a, k):
    if not run.branch(run.contains(a[0], a[1])):
        run.raise_("KeyError")
    s_discard(run, a, k)


def s_update(run, a, k):
    for o in a[1:]:
        for x in run.concrete_iter(o):
            set_add(run, a[0], x)


def s_copy(run, a, k):
    return run.new(SetObj(a[0].items))


def s_intersection(run, a, k):
    o = a[1]
    if isinstance(o, SetObj):
        return run.set_op("BitAnd", a[0], o)
    out = []
    for p, x in a[0].items:
        c = zand(p, run.contains(o, x))
        if not is_false(c):
            out.append((c, x))
    return run.new(SetObj(out))


def s_isdisjoint(run, a, k):
    r = s_intersection(run, a, k)
    t = run.truth_term(r)
    return znot(t) if isinstance(t, bool) else SBool(znot(t))


def s_difference(run, a, k):
    return run.set_op("Sub", a[0], a[1])


def s_union(run, a, k):
    return run.set_op("BitOr", a[0], a[1])


def s_clear(run, a, k):
    run.write(a[0], "#", ())


def s_pop(run, a, k):
    for i, (p, x) in enumerate(a[0].items):
        if is_true(p) or run.branch(p):
            run.write(a[0], "#", tuple(q for j, q in enumerate(a[0].items) if j != i))
            return x
    run.raise_("KeyError")


# super() of external bases -----------------------------------------------------
def super_default(run, s, name, mro):
    o = s.o
    h = run.hooks.get("super")
    if h:
        r = h(run, s, name, [c for c in mro if isinstance(c, Ext)])
        if r is not UNSET:
            return r
    if name == "__init__":
        def init(r, a, k):
            if isinstance(o, Obj) and r.subclass(o.cls, r.exc_class("BaseException")):
                r.write(o, "args", tuple(a))
            return None

        exts = [c for c in mro if isinstance(c, Ext)]
        if all(isinstance(c.pyobj, type) and (c.pyobj is object or issubclass(c.pyobj, BaseException) or c.pyobj.__module__ in ("typing", "collections.abc", "abc")) for c in exts):
            return Native("object.__init__", init)
        if run.setup:
            return Native("external.__init__", lambda r, a, k: None)
        raise Unsupported(f"super().__init__ into {exts}")
    if name == "__new__":
        return Native("object.__new__", lambda r, a, k: r.new(Obj(a[0])))
    if name == "__call__" and isinstance(o, Cls):  # metaclass: type.__call__
        return Native("type.__call__", lambda r, a, k: r.type_call(o, a, k))
    if name == "__init__" or name == "__init_subclass__":
        return Native(name, lambda r, a, k: None)
    if name == "__setattr__":
        def sa(r, a, k):
            r.write(o, a[0], a[1])

        return Native("object.__setattr__", sa)
    if name == "__getattribute__" or name == "__getattr__":
        return Native(name, lambda r, a, k: r.obj_getattr(o, a[0]))
    if name == "__repr__":
        return Native(name, lambda r, a, k: r.fresh("repr", "str"))
    if name == "__class__":
        return o.cls
    return UNSET


WEAKREF_CLS = Cls("ref", [], {}, None, "weakref:ref")


# ------------------------------------------------------------------ standard library
def install(world):
    reg = lambda p, f: world.register(p, Native(p, f) if callable(f) and not isinstance(f, Val) else f)

    reg("contextlib.suppress", lambda r, a, k: Suppress(a))
    for n, v in BUILTINS.items():
        world.register("builtins." + n, v) if n not in ("float", "object", "property", "classmethod", "staticmethod", "type", "list", "tuple", "set", "dict", "bool", "int", "str", "bytes", "frozenset") else None
    # names that are both types and callables stay Ext (so isinstance works) and are called through this table
    for n in ("object", "list", "tuple", "set", "dict", "bool", "int", "str", "bytes", "frozenset", "float", "type", "property", "classmethod", "staticmethod", "zip", "enumerate", "map", "filter", "range", "reversed", "super"):
        f = BUILTINS.pop(n, None) or world.models.get("builtins." + n)
        if f is not None:
            world.call_models = getattr(world, "call_models", {})
            world.call_models[n] = f
            import builtins

            o = getattr(builtins, n)
            world.models.pop(id(o), None)
            world.models.pop("builtins." + n, None)
    ident = lambda run, a, k: a[0]

    def deco_ident(run, a, k):
        return Native("identity-decorator", lambda r, a2, k2: a2[0])

    def getfullargspec(run, a, k):
        f = a[0]
        if isinstance(f, Bound):
            f = f.fn
        if isinstance(f, Closure):
            g = f.node.args
            return (run.list([x.arg for x in g.posonlyargs + g.args]), g.vararg and g.vararg.arg, g.kwarg and g.kwarg.arg, None, run.list([x.arg for x in g.kwonlyargs]), None, None)
        h = run.hooks.get("getfullargspec")
        if h:
            return h(run, f)
        if hasattr(f, "iscoroutinefunction"):
            # a user function whose parameter names are none of the reserved ones (those are refused, see the contract)
            return (run.list([]), "args", "kwargs", None, run.list([]), None, None)
        raise Unsupported(f"getfullargspec of {f!r}")

    reg("inspect.getfullargspec", getfullargspec)

    # functools
    def wraps(run, a, k):
        src = a[0]

        def dec(r, a2, k2):
            f = a2[0]
            if isinstance(f, Closure):
                f.attrs["__wrapped__"] = src
                f.attrs["__name__"] = SV(z3.Function("attr___name__", V, V)(r.to_V(src))) if isinstance(src, SV) else getattr(src, "name", None)
            elif isinstance(f, Obj):
                r.write(f, "__wrapped__", src)
            return f

        return Native("wraps(...)", dec)

    reg("functools.wraps", wraps)

    def update_wrapper(run, a, k):
        w, src = a[0], a[1]
        if isinstance(w, Obj):
            for n in ("__module__", "__name__", "__qualname__", "__doc__"):
                try:
                    v = run.getattr_(src, n)
                except PyExc:
                    continue
                run.write(w, n, v)
            run.write(w, "__wrapped__", src)
        elif isinstance(w, Closure):
            w.attrs["__wrapped__"] = src
        return w

    reg("functools.update_wrapper", update_wrapper)
    for p in ("functools.lru_cache", "functools.cache"):
        world.register(p, Native(p, lambda run, a, k: a[0] if a and isinstance(a[0], (Closure, Bound)) else Native("lru_cache(...)", lambda r, a2, k2: a2[0])))

    def partial(run, a, k):
        f, pre, prek = a[0], list(a[1:]), dict(k)
        n = Native("partial", lambda r, a2, k2: r.call(f, pre + list(a2), {**prek, **k2}))
        n.partial_of = (f, pre, prek)
        return n

    reg("functools.partial", partial)

    # logging / misc: no observable effect on the properties
    for p in ("logging.getLogger", "logging.StreamHandler"):
        reg(p, lambda run, a, k: NULLLOG)
    for p in ("typing.TypeVar", "typing.ParamSpec", "typing_extensions.ParamSpec", "typing.NewType", "typing.cast", "typing.get_args"):
        nm = p
        if p == "typing.cast":
            reg(p, lambda run, a, k: a[1])
        elif p == "typing.get_args":
            reg(p, lambda run, a, k: ())
        else:
            reg(p, (lambda nm: lambda run, a, k: Ext(nm + "()"))(nm))

    # the functions of module operator are the operators
    for nm, op in dict(add="Add", sub="Sub", mul="Mult", truediv="Div", floordiv="FloorDiv", mod="Mod", pow="Pow", or_="BitOr", and_="BitAnd", xor="BitXor", lshift="LShift", rshift="RShift").items():
        for m in ("operator.", "_operator."):
            reg(m + nm, (lambda op: lambda run, a, k: run.binop(op, a[0], a[1]))(op))
    for nm, op in dict(lt="Lt", le="LtE", gt="Gt", ge="GtE", eq="Eq", ne="NotEq", is_="Is", is_not="IsNot").items():
        for m in ("operator.", "_operator."):
            reg(m + nm, (lambda op: lambda run, a, k: run.compare(op, a[0], a[1]))(op))
    for m in ("operator.", "_operator."):
        reg(m + "contains", lambda run, a, k: run.compare("In", a[1], a[0]))
        reg(m + "getitem", lambda run, a, k: run.getitem(a[0], a[1]))
        reg(m + "not_", lambda run, a, k: (lambda t: t if isinstance(t, bool) else SBool(t))(znot(run.truth_term(a[0]))))
        reg(m + "truth", lambda run, a, k: b_bool(run, a, {}))

    # collections
    def deque(run, a, k):
        l = b_list(run, a, {})
        l.kind = "deque"
        return l

    reg("collections.deque", deque)

    def defaultdict(run, a, k):
        d = run.new(DictObj())
        d.kind = "defaultdict"
        d.default_factory = a[0] if a else None
        return d

    reg("collections.defaultdict", defaultdict)

    # threads
    reg("threading.Lock", lambda run, a, k: run.new(LockObj()))
    reg("threading.RLock", lambda run, a, k: run.new(LockObj(reentrant=True)))
    reg("threading.current_thread", lambda run, a, k: run.hooks["current_thread"](run) if "current_thread" in run.hooks else SV(z3.Const("this_thread", V)))

    # inspect / asyncio predicates
    def iscoroutinefunction(run, a, k):
        f = a[0]
        if isinstance(f, Closure):
            return f.is_async and not E.local_info(f.node)[3]
        if isinstance(f, Bound):
            return iscoroutinefunction(run, [f.fn], {})
        if isinstance(f, SV):
            if f.model is not None and hasattr(f.model, "iscoroutinefunction"):
                return f.model.iscoroutinefunction(run, f)
            return SBool(z3.Function("iscoroutinefunction", V, z3.BoolSort())(f.t))
        if isinstance(f, Native):
            if hasattr(f, "partial_of"):
                return iscoroutinefunction(run, [f.partial_of[0]], {})
            return getattr(f, "is_coro_fn", False)
        if hasattr(f, "iscoroutinefunction"):
            return f.iscoroutinefunction(run)
        if isinstance(f, Obj):
            m = f.fields.get("_is_coroutine")
            return m is not None and m is not UNSET and not isinstance(m, bool)
        return False

    reg("asyncio.iscoroutinefunction", iscoroutinefunction)
    reg("inspect.iscoroutinefunction", iscoroutinefunction)

    def isawaitable(run, a, k):
        v = a[0]
        if isinstance(v, Coro) or hasattr(v, "await_"):
            return True
        if isinstance(v, SV):
            if v.model is not None and hasattr(v.model, "isawaitable"):
                return v.model.isawaitable(run, v)
            t = z3.Function("isawaitable", V, z3.BoolSort())(v.t)
            run.assume(z3.Implies(t, z3.Not(z3.Or(V.is_none(v.t), V.is_boolv(v.t), V.is_intv(v.t), V.is_strv(v.t), V.is_consv(v.t), V.is_nilv(v.t)))))
            return SBool(t)
        if isinstance(v, Obj):
            return run.class_attr(v.cls, "__await__") is not UNSET
        return False

    reg("inspect.isawaitable", isawaitable)
    for p in ("inspect.isasyncgenfunction", "inspect.isgeneratorfunction"):
        def isgen(run, a, k, p=p):
            f = a[0]
            if isinstance(f, Closure):
                return E.local_info(f.node)[3] and f.is_async == ("async" in p)
            if isinstance(f, SV):
                return SBool(z3.Function(p.split(".")[1], V, z3.BoolSort())(f.t))
            return False

        reg(p, isgen)
    reg("inspect.iscoroutine", lambda run, a, k: isinstance(a[0], Coro) if not isinstance(a[0], SV) else a[0].model.is_coroutine if a[0].model is not None and hasattr(a[0].model, "is_coroutine") else SBool(z3.Function("iscoroutine", V, z3.BoolSort())(a[0].t)))
    reg("asyncio.iscoroutine", world.models["inspect.iscoroutine"])

    def sleep(run, a, k):
        def r():
            run.event("sleep", a[0])
            run.rely()
            return a[1] if len(a) > 1 else None

        return Coro(r, "asyncio.sleep")

    reg("asyncio.sleep", sleep)

    # dict methods on the storage of a dict subclass
    for n in ("update", "get", "setdefault", "pop", "copy", "__getitem__", "__setitem__", "__delitem__", "__contains__", "__len__", "keys", "values", "items"):

        def dm(run, a, k, n=n):
            o = a[0]
            if isinstance(o, Obj):
                if "#dict" not in o.fields:
                    run.write(o, "#dict", run.new(DictObj()))
                o = o.fields["#dict"]
            return run.call(run.getattr_(o, n), list(a[1:]), k)

        reg("builtins.dict." + n, dm)

    # signatures of functions given by source
    def signature(run, a, k):
        f = a[0].fn if isinstance(a[0], Bound) else a[0]
        if not isinstance(f, Closure):
            raise Unsupported(f"signature of {f!r}")
        g = f.node.args
        d, pos, nd = run.new(DictObj()), g.posonlyargs + g.args, len(f.defaults)
        out = {}
        for i, x in enumerate(pos):
            j = i - (len(pos) - nd)
            out[x.arg] = f.defaults[j] if j >= 0 else EMPTY
        if g.vararg:
            out[g.vararg.arg] = EMPTY
        for x in g.kwonlyargs:
            out[x.arg] = f.kwdefaults[x.arg] if f.kwdefaults.get(x.arg, E.UNSET) is not E.UNSET else EMPTY
        if g.kwarg:
            out[g.kwarg.arg] = EMPTY
        ps = run.new(DictObj({n: (True, run.new(Record("Parameter", {"name": n, "default": v}))) for n, v in out.items()}))
        return run.new(Record("Signature", {"parameters": ps}))

    reg("inspect.signature", signature)
    import inspect as _inspect

    EMPTY = Ext("inspect._empty", _inspect._empty)
    reg("weakref.WeakKeyDictionary", lambda run, a, k: run.new(DictObj()))

    # weakref: a reference whose target may or may not still be alive is a contract's choice
    def ref(run, a, k):
        o = a[0]
        h = run.hooks.get("weakref_dead")
        return Native("weakref", lambda r, a2, k2: None if (h and h(r, o)) else o)

    reg("weakref.ref", ref)

    def wr_call(run, a, k):
        o = a[0].fields["#target"]
        h = run.hooks.get("weakref_dead")
        return None if (h and h(run, o)) else o

    def wr_init(run, a, k):
        run.write(a[0], "#target", a[1])

    WEAKREF_CLS.ns["__init__"] = Native("weakref.ref.__init__", wr_init)
    WEAKREF_CLS.ns["__call__"] = Native("weakref.ref.__call__", wr_call)
    reg("weakref.proxy", lambda run, a, k: run.hooks["weakref_proxy"](run, a) if "weakref_proxy" in run.hooks else a[0])
    reg("copy.deepcopy", ident)
    reg("os.environ.get", lambda run, a, k: a[1] if len(a) > 1 else None)
    # heapq on lists of known length is rare; contracts supply their own heap models
    for n in ("heappush", "heappop", "heapify"):
        def hq(run, a, k, n=n):
            l = a[0]
            if hasattr(l, n):
                return getattr(l, n)(run, *a[1:])
            h = run.hooks.get(n)
            if h:
                return h(run, a)
            if n == "heappush" and isinstance(l, ListObj):
                return run.list_append(l, a[1])  # the order inside is not observed: heappop of such a list is not modelled
            raise Unsupported(n)

        reg("heapq." + n, hq)
    # Ext types that are callable
    for n, f in world.call_models.items():
        world.model_calls = getattr(world, "model_calls", {})
        import builtins

        world.model_calls[id(getattr(builtins, n))] = f
    base_model_of = world.model_of

    def model_of(ext):
        if ext.pyobj is not None and id(ext.pyobj) in world.model_calls:
            return world.model_calls[id(ext.pyobj)]
        return base_model_of(ext)

    for n, f in (("libc.stdlib.malloc", lambda run, a, k: run.new(CStr())), ("libc.stdlib.free", lambda run, a, k: None),
                 ("libc.string.strcpy", lambda run, a, k: run.write(a[0], "s", a[1])), ("libc.time.time", lambda run, a, k: run.fresh("now", "int"))):
        reg("cimport." + n, f)
    world.model_of = model_of
    from . import aio

    aio.install(world)


class NullLog(Val):
    """a logger: calls have no effect that a property talks about"""

    def getattr(self, run, name):
        if name == "isEnabledFor":
            return Native(name, lambda r, a, k: r.hooks["debug_logs"](r) if "debug_logs" in r.hooks else False)
        if name in ("disabled",):
            return False
        if name == "level":
            return 30
        return Native("log." + name, lambda r, a, k: None)

    def call(self, run, a, k):
        return None

    def truth(self, run):
        return True


NULLLOG = NullLog()


class Suppress(Val):
    """contextlib.suppress(*classes)"""

    def __init__(self, classes):
        self.classes = classes

    def getattr(self, run, name):
        if name == "__enter__":
            return Native(name, lambda r, a, k: None)
        if name == "__exit__":
            return Native(name, lambda r, a, k: False if a[1] is None else r.isinstance_(a[1], tuple(self.classes)))
        return UNSET


class LockObj(Heap):
    def __init__(self, reentrant=False):
        self.held = False
        self.reentrant = reentrant

    def locs(self):
        return {"held": self.held}

    def setloc(self, k, v):
        self.held = v

    def getattr(self, run, name):
        def acq(r, a, k):
            h = r.hooks.get("lock_acquire")
            if h:
                h(r, self)
            r.write(self, "held", True)
            r.event("lock", self)
            return self if name == "__enter__" else True

        def rel(r, a, k):
            h = r.hooks.get("lock_release")
            if h:
                h(r, self)
            r.write(self, "held", False)
            r.event("unlock", self)
            return False

        if name in ("__enter__", "acquire"):
            return Native(name, acq)
        if name in ("__exit__", "release"):
            return Native(name, rel)
        if name == "locked":
            return Native(name, lambda r, a, k: self.held)
        return UNSET


class CStr(Heap):
    """a C string on the heap"""

    def __init__(self):
        self.s = None

    def locs(self):
        return {"s": self.s}

    def setloc(self, k, v):
        self.s = v

    def truth(self, run):
        return True

    def getattr(self, run, name):
        if name == "decode":
            return Native("decode", lambda r, a, k: r.fresh("decoded", "str"))
        return UNSET
