"""ASyncFuture: every operation over futures is that operation over their results.

Results and plain operands are arbitrary values; an operation on them is one event ("op", name, operands) with an arbitrary outcome.  States of
a future that is waited for are reached through its own code: another user starts waiting before, or has the result before, the user at hand."""
from .common import *
from .dualmode import decorate, DECOS
from .tasks import *

FM = "a_sync.future:"
A = FM + "ASyncFuture."
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "**": "pow"}
CMP = {"<": "lt", ">": "gt", "<=": "le", ">=": "ge"}
FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
BASE = [A + "__init__", A + "__await__", A + "__await", A + "__task__", A + "__list_dependencies"]
EXPR = BASE + [FM + "_gather_check_and_materialize", FM + "_check_and_materialize"]


class Value:
    """an arbitrary result or plain operand, which knows nothing of futures"""

    ops = True

    def truth(self, run, o):
        return None

    def isinstance(self, run, o, c):
        return False

    def isawaitable(self, run, o):
        return False

    def getattr(self, run, o, name):
        if name in ("__iter__", "__next__", "__enter__", "__exit__", "__contains__", "__getitem__", "__bool__", "__str__", "__bytes__", "__int__", "__float__"):
            return Native(name, lambda r, a, k: do_op(r, name, [o] + list(a)))
        if name.startswith("__") and name != "__class__":
            return UNSET
        if name == "result" and not run.has_result:
            run.raise_("AttributeError", name)
        return do_op(run, "getattr", [o, name])

    def getitem(self, run, o, k):
        return do_op(run, "getitem", [o, k])

    def contains(self, run, c, x):
        return run.truth_term(do_op(run, "contains", [c, x]))


VALUE = Value()


def value(run, name):
    v = run.fresh(name)
    v.model = VALUE
    t = v.t
    run.assume(V.is_opq(t))
    return v


def do_op(run, name, args):
    name = name.strip("_")
    run.event("op", name, tuple(args))
    if run.fork(f"{name} works", f"{name} raises") == 0:
        r = run.fresh("value_of_" + name)
        r.model = PLAIN
        out = ("ret", r)
    else:
        out = ("exc", run.fresh_exc("error_of_" + name))
        run.hooks["user_exc"](run, out[1])
    run.event("op-outcome", name, out)
    if out[0] == "exc":
        run.cover("operation raises")
        raise PyExc(out[1])
    return r


class Plain(Value):
    def getattr(self, run, o, name):
        return UNSET


PLAIN = Plain()


class LazyTask(Heap):
    """a task: runs its coroutine once; every user gets its outcome"""

    def __init__(self, coro):
        self.coro, self.out = coro, None
        self.cls = Ext("asyncio.Task", __import__("asyncio").Task)

    def await_(self, run):
        if self.out is None:
            h = run.hooks.get("waits")
            if h:
                h(self)
        if self.out is None:
            self.out = outcome_of(run, lambda: run.await_(self.coro))
        if self.out[0] == "exc":
            raise PyExc(self.out[1])
        return self.out[1]

    def getattr(self, run, name):
        if name == "done":
            return Native(name, lambda r, a, k: self.out is not None)
        return UNSET


class Futures(Contract):
    assumes = (
        "plain operands and results know nothing of ASyncFuture (their operators return NotImplemented for one) and results are no awaitables",
        "asyncio.gather runs every awaitable once and gives all results in order or one of the exceptions; a task runs its coroutine once and gives its outcome to every user (C15 for create_task)",
        "concurrent.futures.Future's done/set_result: modelled",
        "no operation raises a RuntimeError with exactly asyncio's message for a running loop",
    )
    has_result = False

    def setup(self, run, **names):
        tinit(run)
        run.has_result = self.has_result
        run.hooks["debug_logs"] = lambda r: False
        run.hooks["opaque_op"] = do_op
        run.hooks["opaque_compare"] = lambda r, n, a: do_op(r, n, a) if any(getattr(x, "model", None) is VALUE for x in a) else UNSET
        run.hooks["loop_create_task"] = lambda r, loop, a, k: r.new(LazyTask(a[0]))
        run.hooks["super"] = self.sup
        run.hooks["ext_call"] = self.ext
        run.hooks["user_ret"] = self.user_ret
        run.hooks["user_exc"] = lambda r, e: r.assume(z3.Function("str_of", V, z3.StringSort())(e.t) != z3.StringVal("This event loop is already running"))
        self.persist_none(run)
        self.fns = {}
        self.states = {}

    def persist_none(self, run):
        m = run.world.module("a_sync.asyncio.create_task")
        for k, v in m.ns.items():
            if isinstance(v, SetObj):
                run.setattr_(m, k, run.new(SetObj()))

    def user_ret(self, run, r):
        r.model = VALUE
        run.assume(V.is_opq(r.t))

    def sup(self, r, s, name, exts):
        if any("Future" in c.path for c in exts):
            if name == "__init__":

                def init(r2, a, k):
                    r2.write(s.o, "_state", "PENDING")
                    r2.write(s.o, "_result", None)

                return Native("Future.__init__", init)
            if name == "result":
                return Native("Future.result", lambda r2, a, k: self.future_result(r2, s.o))
        return UNSET

    def future_result(self, r, o):
        if o.fields["_state"] != "FINISHED":
            raise Unsupported("blocks")
        return o.fields["_result"]

    def ext(self, r, f, args, kwargs):
        p = f.path if isinstance(f, Ext) else ""
        leaf = p.rpartition(".")[2]
        if leaf == "gather":
            outs = [outcome_of(r, lambda c=c: r.await_(c)) for c in args]
            bad = [o for o in outs if o[0] == "exc"]
            if bad and kwargs.get("return_exceptions") in (None, False):
                e = bad[r.fork(*[f"failure {i}" for i in range(len(bad))]) if len(bad) > 1 else 0][1]

                def fail():
                    raise PyExc(e)

                return r.new(Later(fail))
            res = [o[1] for o in outs]
            return r.new(Later(lambda: r.list(res)))
        if args and isinstance(args[0], Obj) and "_state" in args[0].fields and "utures" in p:
            o = args[0]
            if leaf == "done":
                return o.fields["_state"] in ("FINISHED", "CANCELLED")
            if leaf in ("cancelled", "running"):
                return False
            if leaf == "set_result":
                if o.fields["_state"] != "PENDING":
                    r.raise_("InvalidStateError")
                r.write(o, "_result", args[1])
                r.write(o, "_state", "FINISHED")
                return None
            if leaf == "result":
                return self.future_result(r, o)
        return UNSET

    def user_future(self, run, name, state=0):
        """a future of a user's coroutine; state 1: done"""
        fn = UserFn(name, True)
        fn.no_rely = True
        self.fns[name] = fn
        F = run.call(run.world.fn(FM + "ASyncFuture"), [run.call(fn, [], {})], {})
        if state:
            saved = run.hooks.get("loop_running", False)
            run.hooks["loop_running"] = True
            o = outcome_of(run, lambda: run.await_(F))
            run.hooks["loop_running"] = saved
            if o[0] == "exc":
                self.failed_before = True
            else:
                run.assume(True)
        return F

    def val(self, run, name):
        return user_outcome(run, self.fns[name])

    def ops(self, run):
        return [e for e in run.trace if e[0] == "op"]

    def prove_op(self, run, out, want, what, conv=None):
        """out is the outcome of exactly one operation, one of `want` = (name, operands), on the results"""
        ops = self.ops(run)
        run.prove(len(ops) == 1, f"{what}: the operation is carried out once")
        if len(ops) != 1:
            return
        e = ops[0]
        fit = [w for w in want if w[0] == e[1] and len(w[1]) == len(e[2])]
        fit.sort(key=lambda w: not all(is_true(run.same(a, b)) for a, b in zip(w[1], e[2])))
        run.prove(bool(fit), f"{what}: it is that operation")
        if not fit:
            return
        for i, (x, y) in enumerate(zip(e[2], fit[0][1])):
            prove_same(run, x, y, f"{what}: operand {i + 1} is in its place")
        res = next(t[2] for t in run.trace if t[0] == "op-outcome")
        if res[0] == "ret" and conv:
            run.prove(out[0] == "ret", f"{what}: gives its outcome")
            if out[0] == "ret":
                run.prove(zbool(run.truth_term(out[1])) == (z3.Not(zbool(run.truth_term(res[1]))) if conv == "not" else zbool(run.truth_term(res[1]))), f"{what}: gives its outcome")
                run.prove(isinstance(out[1], (bool, SBool)), f"{what}: gives a bool")
            return
        prove_outcome(run, out, res, f"{what}: gives its outcome")


class Later(Heap):
    def __init__(self, fn):
        self.fn = fn

    def await_(self, run):
        return self.fn()

    def getattr(self, run, name):
        return UNSET


class Wait(Futures):
    name = "awaiting a future: its coroutine runs once for all users, each of which gets its outcome"
    functions = BASE
    must_cover = ("first user", "second user", "another got it first", "done before", "ret", "exc", "through a loop run")

    def run(self, run):
        self.setup(run)
        run.hooks["loop_running"] = True
        fn = UserFn("fn", True)
        fn.no_rely = True
        self.fns["fn"] = fn
        F = run.call(run.world.fn(FM + "ASyncFuture"), [run.call(fn, [], {})], {})
        got = []
        depth = [0]

        def waits(task):
            d = depth[0] = depth[0] + 1
            run.prove(len(user_runs(run)) <= 1, "the coroutine runs once")
            if d < 3 and run.fork("nobody else meanwhile", "another user waits meanwhile") == 1:
                run.cover("second user" if d == 1 else "another got it first")
                got.append(outcome_of(run, lambda: run.await_(F)))

        run.hooks["waits"] = waits
        run.cover("first user")
        got.append(outcome_of(run, lambda: run.await_(F)))
        del run.hooks["waits"]
        if run.fork("asked again", "asked for synchronously") == 0:
            run.cover("done before")
            got.append(outcome_of(run, lambda: run.await_(F)))
        else:
            run.hooks["loop_running"] = False
            run.cover("through a loop run")
            got.append(outcome_of(run, lambda: run.call(run.getattr_(F, "result"), [], {})))
        run.prove(len(user_runs(run)) == 1, "the coroutine runs once")
        uo = self.val(run, "fn")
        run.cover(uo[0])
        for i, o in enumerate(got):
            prove_outcome(run, o, uo, "every user gets the coroutine's outcome")


class Expr(Futures):
    must_cover = ("operand fails", "evaluated", "operation raises", "asked again")

    def __init__(self, sym, kind):
        self.sym, self.kind = sym, kind
        self.dn = {**BIN, **CMP}[sym]
        self.name = {"Fx": f"F {sym} x", "xF": f"x {sym} F", "FG": f"F {sym} G", "FF": f"F {sym} F"}[kind]
        r = "r" if kind == "xF" else ""
        if sym in CMP:
            d = FLIP[self.dn] if kind == "xF" else self.dn
            r = ""
        else:
            d = self.dn
        self.functions = EXPR + [A + f"__{r}{d}__", A + f"__{r}{d}"]

    def run(self, run):
        self.setup(run)
        done = run.fork("not awaited before", "awaited before")
        F = self.user_future(run, "f", done)
        if self.val(run, "f") and self.val(run, "f")[0] == "exc" and done:
            pass
        two = self.kind == "FG"
        G = self.user_future(run, "g", run.fork("not awaited before", "awaited before")) if two else None
        x = value(run, "x")
        src = {"Fx": "F {} x", "xF": "x {} F", "FG": "F {} G", "FF": "F {} F"}[self.kind].format(self.sym)
        ns = user_module(run, f"def expr(F, G, x):\n    return {src}")
        out = outcome_of(run, lambda: run.call(ns["expr"], [F, G, x], {}))
        ok = out[0] == "ret" and is_awaitable(run, out[1])
        run.prove(ok, "the expression gives an awaitable")
        if not ok:
            return
        E = out[1]
        if run.fork("awaited", "asked for synchronously") == 0:
            run.hooks["loop_running"] = True
            out = outcome_of(run, lambda: run.await_(E))
        else:
            out = outcome_of(run, lambda: run.call(run.getattr_(E, "result"), [], {}))
        vf, vg = self.val(run, "f"), self.val(run, "g") if two else None
        for n in self.fns:
            run.prove(len(user_runs(run, self.fns[n])) == 1, "each operand's coroutine runs once")
        bad = [v for v in (vf, vg) if v and v[0] == "exc"]
        if bad:
            run.cover("operand fails")
            run.prove(not self.ops(run), "no operation without both operands")
            run.prove(out[0] == "exc" and any(out[1] is b[1] for b in bad), "an operand's exception is the expression's")
            return
        run.cover("evaluated")
        l, r = {"Fx": (vf[1], x), "xF": (x, vf[1]), "FG": (vf[1], vg and vg[1]), "FF": (vf[1], vf[1])}[self.kind]
        want = [(self.dn, (l, r))]
        if self.sym in CMP:
            want.append((FLIP[self.dn], (r, l)))
        self.prove_op(run, out, want, self.name)
        run.hooks["loop_running"] = True
        run.cover("asked again")
        again = outcome_of(run, lambda: run.await_(E))
        prove_outcome(run, again, out, "asking again gives the same")
        run.prove(len(self.ops(run)) == 1, "and carries nothing out again")


class AtOnce(Futures):
    """equality and membership"""

    KINDS = {
        "F == x": ("eq", "F", "x", False), "x == F": ("eq", "x", "F", False), "F == G": ("eq", "F", "G", False), "F != x": ("eq", "F", "x", True), "F != G": ("eq", "F", "G", True),
        "x in F": ("contains", "F", "x", False), "G in F": ("contains", "F", "G", False), "x not in F": ("contains", "F", "x", True),
    }

    def __init__(self, src):
        self.src = src
        self.op, self.l, self.r, self.neg = self.KINDS[src]
        self.name = src
        self.functions = EXPR + [A + f"__{self.op}__", A + f"__{self.op}", A + "__bool__", FM + "_materialize"]
        self.must_cover = ["evaluated", "operation raises", "operand fails", "done, in a running loop", "not done, in a running loop", "no loop running"]

    def run(self, run):
        self.setup(run)
        two = "G" in (self.l, self.r)
        df = run.fork("F not awaited before", "F awaited before")
        F = self.user_future(run, "f", df)
        dg = run.fork("G not awaited before", "G awaited before") if two else 1
        G = self.user_future(run, "g", dg) if two else None
        x = value(run, "x")
        ns = user_module(run, f"def expr(F, G, x):\n    return {self.src}")
        running = run.fork("no loop running", "in a running loop") == 1
        run.hooks["loop_running"] = running
        failed = [self.val(run, n) for n in self.fns if self.val(run, n) and self.val(run, n)[0] == "exc"]
        before = len(self.ops(run))
        out = outcome_of(run, lambda: run.call(ns["expr"], [F, G, x], {}))
        if running and (not df or not dg or failed):
            run.cover("not done, in a running loop")
            if not (df and dg):
                prove_exc(run, out, "RuntimeError", "what is not there yet, in a running loop, is refused")
            else:
                run.prove(out[0] == "exc", "a failed operand gives no answer")
            return
        vf, vg = self.val(run, "f"), self.val(run, "g") if two else None
        run.cover("done, in a running loop" if running else "no loop running")
        for n in self.fns:
            run.prove(len(user_runs(run, self.fns[n])) == 1, "each operand's coroutine runs once")
        bad = [v for v in (vf, vg) if v and v[0] == "exc"]
        if bad:
            run.cover("operand fails")
            run.prove(out[0] == "exc" and any(out[1] is b[1] for b in bad), "an operand's exception is the expression's")
            return
        run.cover("evaluated")
        v = {"F": vf[1], "x": x, "G": vg and vg[1]}
        want = [(self.op, (v[self.l], v[self.r]))]
        if self.op == "eq":
            want.append(("eq", (v[self.r], v[self.l])))
        self.prove_op(run, out, want, self.src, conv="not" if self.neg else "same")


class Convert(Futures):
    KINDS = {
        "F[k]": ("getitem", lambda v, k: (v, k), "__getitem__"),
        "F.attribute": ("getattr", lambda v, k: (v, "attribute"), "__getattr__"),
        "int(F)": ("int", lambda v, k: (v,), "__int__"),
        "float(F)": ("float", lambda v, k: (v,), "__float__"),
        "str(F)": ("str", lambda v, k: (v,), "__str__"),
        "bytes(F)": ("bytes", lambda v, k: (v,), "__bytes__"),
        "bool(F)": (None, None, "__bool__"),
        "iter(F)": ("iter", lambda v, k: (v,), "__iter__"),
        "next(F)": ("next", lambda v, k: (v,), "__next__"),
        "F.__enter__()": ("enter", lambda v, k: (v,), "__enter__"),
        "F.__exit__(k, None, None)": ("exit", lambda v, k: (v, k, None, None), "__exit__"),
        "F.result()": (None, None, "result"),
    }

    def __init__(self, src):
        self.src = src
        self.name = src
        self.op, self.args, fn = self.KINDS[src]
        self.functions = BASE + [A + fn, FM + "_materialize"]
        self.must_cover = ["evaluated", "operand fails", "done, in a running loop", "not done, in a running loop", "no loop running"] + (["operation raises"] if self.op else [])

    def run(self, run):
        self.setup(run)
        df = run.fork("F not awaited before", "F awaited before")
        F = self.user_future(run, "f", df)
        k = value(run, "k")
        running = run.fork("no loop running", "in a running loop") == 1
        run.hooks["loop_running"] = running
        failed = self.val(run, "f") and self.val(run, "f")[0] == "exc"
        if self.src.startswith(("int", "float", "str", "bytes", "next")):
            th = lambda: run.call(run.getattr_(F, self.KINDS[self.src][2]), [], {})
        else:
            ns = user_module(run, f"def expr(F, k):\n    return {self.src}")
            th = lambda: run.call(ns["expr"], [F, k], {})
        out = outcome_of(run, th)
        if running and (not df or failed):
            run.cover("not done, in a running loop")
            run.prove(out[0] == "exc", "what is not there, in a running loop, is refused")
            if not df:
                prove_exc(run, out, "RuntimeError", "what is not there yet, in a running loop, is refused")
            return
        run.cover("done, in a running loop" if running else "no loop running")
        vf = self.val(run, "f")
        run.prove(len(user_runs(run, self.fns["f"])) == 1, "the coroutine runs once")
        if vf[0] == "exc":
            run.cover("operand fails")
            prove_outcome(run, out, vf, "the operand's exception is the expression's")
            return
        run.cover("evaluated")
        if self.src == "bool(F)":
            run.prove(out[0] == "ret" and zbool(run.truth_term(out[1])) == zbool(run.truth_term(vf[1])) if out[0] == "ret" else False, "bool(F) is bool of the result")
            return
        if self.src == "F.result()":
            prove_outcome(run, out, vf, "F.result() is the result")
            return
        self.prove_op(run, out, [(self.op, self.args(vf[1], k))], self.src)


class Decorated(Futures):
    functions = [FM + "future", FM + "_ASyncFutureWrappedFn.__init__", FM + "_ASyncFutureWrappedFn.__call__", FM + "_ASyncFutureWrappedFn.__get__", FM + "_ASyncFutureInstanceMethod.__init__", FM + "_ASyncFutureInstanceMethod.__call__"]
    must_cover = ("ret", "exc")

    def __init__(self, is_coro, style):
        self.is_coro, self.style = is_coro, style
        self.name = f"a call of a {'coroutine' if is_coro else 'plain'} function decorated with future{style}"

    def run(self, run):
        self.setup(run)
        rest_has_no_flags(run)
        fn = UserFn("fn", self.is_coro)
        fn.no_rely = True
        src = {"": "f = future(fn)", "()": "f = future()(fn)", " in a class": "class K:\n    m = future(fn)\nk = K()\nf = k.m"}[self.style]
        ns = user_module(run, "from a_sync.future import future\n" + src, fn=fn)
        args, kwargs, check = sym_call_args(run)
        out = outcome_of(run, lambda: run.call(ns["f"], args, kwargs))
        ok = out[0] == "ret" and is_awaitable(run, out[1])
        run.prove(ok, "the call gives a future")
        if not ok:
            return
        run.hooks["loop_running"] = True
        o1 = outcome_of(run, lambda: run.await_(out[1]))
        o2 = outcome_of(run, lambda: run.await_(out[1]))
        us = user_runs(run)
        run.prove(len(us) == 1, "the function runs once")
        if len(us) != 1:
            return
        a = list(us[0][2])
        if self.style == " in a class":
            run.prove(bool(a) and a[0] is ns["k"], "a method gets its object")
            a = a[1:]
        check(run, a, us[0][3], "the function gets the caller's arguments")
        uo = user_outcome(run)
        run.cover(uo[0])
        prove_outcome(run, o1, uo, "the future gives the function's outcome")
        prove_outcome(run, o2, uo, "the future gives the function's outcome to every user")


def contracts():
    out = [Wait()]
    for s in list(BIN) + list(CMP):
        for k in ("Fx", "xF", "FG", "FF"):
            out.append(Expr(s, k))
    out += [AtOnce(s) for s in AtOnce.KINDS]
    out += [Convert(s) for s in Convert.KINDS]
    out += [Decorated(c, s) for c in (True, False) for s in ("", "()", " in a class")]
    return out
