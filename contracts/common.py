"""Shared vocabulary of the contracts: symbolic callers, user functions, outcomes."""
import z3

from pyvc.aio import *
from pyvc.engine import Env, Frame, Module, P, PathEnd, PyExc, StarArgs, UNSET, Unsupported, is_false, is_true, zbool
from pyvc.values import *

FLAGS = {"sync": True, "asynchronous": False}  # recognised call-time flags and whether True means "synchronous"


class Contract:
    name = "?"
    functions = ()
    assumes = ()
    must_cover = ()

    def run(self, run):
        raise NotImplementedError


def exc_name(run, e):
    """the class name of a known exception object, else None"""
    return e.cls.name if isinstance(e, Obj) and isinstance(e.cls, Cls) else (e.cls.path.rpartition(".")[2] if isinstance(e, Obj) else None)


def prove_exc(run, out, clsname, ob):
    """outcome `out` is an exception whose class is clsname"""
    if out[0] != "exc":
        run.prove(False, ob)
        return
    e = out[1]
    if isinstance(e, Obj):
        names = [c.name if isinstance(c, Cls) else c.path.rpartition(".")[2] for c in (e.cls.mro() if isinstance(e.cls, Cls) else ext_mro(e.cls))]
        run.prove(clsname in names, ob)
        return
    run.prove(False, ob)


def prove_same(run, a, b, ob):
    """a is b"""
    t = run.same(a, b)
    if not isinstance(t, bool):
        run.prove(t, ob)
        return
    if not t and not (isinstance(a, Heap) and isinstance(b, Heap)):
        try:
            run.prove(run.to_V(a) == run.to_V(b), ob)
            return
        except Unsupported:
            pass
    run.prove(t, ob)


def prove_outcome(run, got, want, ob):
    if got[0] != want[0]:
        run.prove(False, ob)
    else:
        prove_same(run, got[1], want[1], ob)


def sym_call_args(run, npos=2, kw=("alpha",), star=True):
    """arguments of an arbitrary call: some positionals followed by any number of further ones; named keywords plus any further ones.
    returns (args, kwargs, check) where check(run, args2, kwargs2, ob) proves that a callee got exactly these"""
    args = [run.fresh(f"arg{i}") for i in range(npos)]
    tail = StarArgs(run.new(ListObj(seq=run.fresh("more_args", "seq"), kind="tuple"))) if star else None
    kws = {k: run.fresh("kw_" + k) for k in kw}
    rest = z3.Const(run.fresh_name("more_kwargs"), V)
    a = args + ([tail] if tail else [])
    k = dict(kws)
    k["**"] = rest

    def check(run, a2, k2, ob):
        a2 = list(a2)
        ok = len(a2) == len(a)
        run.prove(ok, ob + ": number of positional arguments")
        if ok:
            for x, y in zip(a2, a):
                if isinstance(y, StarArgs):
                    run.prove(isinstance(x, StarArgs) and x.seq is y.seq, ob + ": further positional arguments")
                else:
                    prove_same(run, x, y, ob + ": positional argument")
        k2 = dict(k2)
        r2 = k2.pop("**", None)
        run.prove(r2 is not None and z3.is_expr(r2) and r2.eq(rest), ob + ": further keywords")
        run.prove(set(k2) == set(kws), ob + ": exactly the caller's keywords, no flag")
        for n in kws:
            if n in k2:
                prove_same(run, k2[n], kws[n], ob + ": keyword value")

    return a, k, check


def rest_has_no_flags(run):
    """further keywords of a call are none of those the harness names explicitly"""
    run.hooks["rest_contains"] = lambda r, d, x: (False if isinstance(x, str) else r.raise_unsupported("membership of symbolic key"))


def pick_flags(run, kwargs, names=("sync", "asynchronous")):
    """every combination of call-time flags with arbitrary values; returns the list of (name, value)"""
    present = []
    for n in names:
        if run.fork(f"no {n}", f"{n} given") == 1:
            v = run.fresh("flag_" + n)
            kwargs[n] = v
            present.append((n, v))
    return present


def flag_sync(run, name, value):
    t = run.truth_term(value)
    if FLAGS[name]:
        return t
    return (not t) if isinstance(t, bool) else z3.Not(t)


def is_awaitable(run, v):
    if isinstance(v, (Coro, WrappedFut)):
        return True
    if isinstance(v, Obj):
        return run.class_attr(v.cls, "__await__") is not UNSET
    return hasattr(v, "await_")


def user_runs(run, fn=None):
    return [e for e in run.trace if e[0] == "user" and (fn is None or e[1] is fn)]


def user_outcome(run, fn=None):
    for e in run.trace:
        if e[0] == "user-ret" and (fn is None or e[1] is fn):
            return ("ret", e[2])
        if e[0] == "user-exc" and (fn is None or e[1] is fn):
            return ("exc", e[2])
    return None


def user_module(run, src, **names):
    """module of the user's, given by its source; names: values (symbolic or user functions) it uses.  Returns its namespace"""
    import ast
    import textwrap

    m = Module("user_module")
    m.ns["__name__"] = "user_module"
    m.ns.update(names)
    env = Env()
    env.vars = m.ns
    fr = Frame(run, env, m, None, "user_module.<module>", None)
    run.frames.append(fr)
    try:
        for st in ast.parse(textwrap.dedent(src)).body:
            run.exec_stmt(st, fr)
    finally:
        run.frames.pop()
    return m.ns
