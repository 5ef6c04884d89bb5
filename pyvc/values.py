"""Symbolic values of the pyvc verifier.

The universal sort V of Python values is a z3 datatype: None, bools, (mathematical) ints, strings, pairs/tuples, identified heap
objects and opaque user values.  A value whose structure the verifier knows is kept at meta level (Python object of one of
the classes below); ``to_V`` embeds any of them in V, injectively.
"""
import z3

_V = z3.Datatype("V")
_V.declare("none")
_V.declare("boolv", ("b", z3.BoolSort()))
_V.declare("intv", ("i", z3.IntSort()))
_V.declare("strv", ("s", z3.StringSort()))
_V.declare("fltv", ("r", z3.RealSort()))
_V.declare("objv", ("oid", z3.IntSort()))
_V.declare("nilv")
_V.declare("consv", ("hd", _V), ("tl", _V))
_V.declare("opq", ("uid", z3.IntSort()))
V = _V.create()
SeqV = z3.SeqSort(V)
IntS, BoolS = z3.IntSort(), z3.BoolSort()

f_truthy = z3.Function("truthy_opq", V, BoolS)  # bool() of a value that is not None/bool/int/str
f_isinst = z3.Function("isinst", V, IntS, BoolS)
f_eq = z3.Function("py_eq", V, V, BoolS)
f_lt = z3.Function("py_lt", V, V, BoolS)


class Val:
    """base of all symbolic/meta values"""


class SV(Val):
    """opaque value"""

    __slots__ = ("t", "model")

    def __init__(self, t, model=None):
        self.t = t
        self.model = model  # optional model object giving meaning to attributes/methods

    def __repr__(self):
        return f"SV({self.t})"


class SInt(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBool(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SStr(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SStr({self.t})"


class SBytes(SStr):
    """bytes of unknown contents"""

    __slots__ = ()


class SReal(Val):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Heap(Val):
    """anything with identity and mutable state; ``serial`` is deterministic along a path prefix"""

    serial = None
    cls = None

    def locs(self):
        """mutable locations -> current values"""
        return {}

    def setloc(self, k, v):
        raise NotImplementedError


class Obj(Heap):
    def __init__(self, cls):
        self.cls = cls
        self.fields = {}

    def __repr__(self):
        return f"<{getattr(self.cls,'name',self.cls)} #{self.serial}>"

    def locs(self):
        return self.fields

    def setloc(self, k, v):
        self.fields[k] = v


class ListObj(Heap):
    """list/deque/tuple-like with either a Python list of values or a z3 Seq(V) term"""

    kind = "list"

    def __init__(self, items=None, seq=None, kind="list", elem=None):
        self.items = list(items) if items is not None else None
        self.seq = seq
        self.kind = kind
        self.elem = elem  # function wrapping an element term into a value

    def locs(self):
        return {"#": (tuple(self.items) if self.items is not None else None, self.seq)}

    def setloc(self, k, v):
        it, self.seq = v
        self.items = list(it) if it is not None else None

    def __repr__(self):
        return f"{self.kind}#{self.serial}({self.items if self.items is not None else self.seq})"


class DictObj(Heap):
    """finite dict: concrete keys -> (present: z3 Bool or True, value); optionally an opaque remainder `rest` (a V token)
    standing for any further entries, none of which has a key in `known`."""

    kind = "dict"

    def __init__(self, entries=None, rest=None):
        self.entries = dict(entries or {})  # key -> (present, value)
        self.rest = rest

    def locs(self):
        return {"#": (tuple(self.entries.items()), self.rest)}

    def setloc(self, k, v):
        e, self.rest = v
        self.entries = dict(e)

    def __repr__(self):
        return f"dict#{self.serial}({self.entries}, rest={self.rest})"


class CStruct(Val):
    """a C struct type"""

    def __init__(self, name, fields):
        self.name, self.fields = name, dict(fields)


class StructVal(Heap):
    """a C struct variable (value semantics: copied when stored, a dict when it becomes a Python object)"""

    kind = "struct"

    def __init__(self, ty, fields):
        self.ty, self.fields = ty, dict(fields)

    def locs(self):
        return dict(self.fields)

    def setloc(self, k, v):
        self.fields[k] = v


class SetObj(Heap):
    kind = "set"

    def __init__(self, items=None):
        self.items = list(items or [])  # (present, value) with distinct concrete values

    def locs(self):
        return {"#": tuple(self.items)}

    def setloc(self, k, v):
        self.items = list(v)


class Env:
    """variables of one activation"""

    count = 0

    def __init__(self, parent=None, names=None):
        self.vars = {}
        self.parent = parent
        self.names = names
        self.serial = None
        Env.count += 1
        self.count = Env.count

    def locs(self):
        return self.vars

    def setloc(self, k, v):
        self.vars[k] = v


class Closure(Val):
    def __init__(self, node, env, module, cls, defaults, kwdefaults, qualname, decorated=()):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.defaults, self.kwdefaults, self.qualname = defaults, kwdefaults, qualname
        self.name = getattr(node, "name", "<lambda>")
        self.attrs = {}
        self.is_async = type(node).__name__ == "AsyncFunctionDef"
        self.is_gen = None

    def __repr__(self):
        return f"<fn {self.qualname}>"


class Native(Val):
    """function implemented by the verifier: fn(ctx, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return f"<native {self.name}>"


class Bound(Val):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self_}>"


class Prop(Val):
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached
        self.name = None


class ClassM(Val):
    def __init__(self, fn):
        self.fn = fn


class StaticM(Val):
    def __init__(self, fn):
        self.fn = fn


class Cls(Val):
    """class defined in the repository (or by a model)"""

    def __init__(self, name, bases, ns, module, qualname=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.qualname = qualname or name
        self.ctypes = {}
        self._mro = None
        self.metaclass = None

    def mro(self):
        if self._mro is None:
            seqs = [b.mro()[:] if isinstance(b, Cls) else [b] + ext_mro(b)[1:] for b in self.bases] + [list(self.bases)]
            tail = [c for q in seqs for c in q if isinstance(c, Ext) and c.path == "builtins.object"][:1]
            seqs = [[c for c in q if not (isinstance(c, Ext) and c.path == "builtins.object")] for q in seqs]  # object comes last, wherever it is named
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(_in(c, t[1:]) for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                for s in seqs:
                    if s and _same(s[0], c):
                        del s[0]
            self._mro = out + tail
        return self._mro

    def __repr__(self):
        return f"<class {self.qualname}>"


class Ext(Val):
    """reference to something outside the repository, by dotted path; pyobj is the real object if there is one"""

    def __init__(self, path, pyobj=None):
        self.path, self.pyobj = path, pyobj

    def __repr__(self):
        return f"<ext {self.path}>"

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


def _same(a, b):
    return a is b or (isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path)


def _in(c, l):
    return any(_same(c, x) for x in l)


def ext_mro(e):
    if isinstance(e, Ext) and isinstance(e.pyobj, type):
        return [Ext(f"{c.__module__}.{c.__qualname__}", c) for c in e.pyobj.__mro__]
    return [e]


class Coro(Val):
    """coroutine object of a repository (or model) coroutine function"""

    def __init__(self, run, label, args=(), kwargs=None, fn=None):
        self.run, self.label, self.args, self.kwargs, self.fn = run, label, args, kwargs or {}, fn
        self.started = False

    def __repr__(self):
        return f"<coro {self.label}>"


class Gen(Val):
    """(async) generator object: run(on_yield)"""

    def __init__(self, run, label, is_async, args=(), kwargs=None, fn=None):
        self.run, self.label, self.is_async, self.args, self.kwargs, self.fn = run, label, is_async, args, kwargs or {}, fn
        self.started = False


class Module(Val):
    def __init__(self, name):
        self.name = name
        self.ns = {}
        self.pending = {}


class Uninit:
    pass


UNSET = Uninit()
