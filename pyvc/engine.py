"""pyvc: a verification-condition generator for the Python/Cython of this repository.

Forward symbolic execution of the *real* functions (see frontend.py), one path at a time, by deterministic re-execution.
Loops over anything of unknown size are cut by invariants (Houdini over candidates, write sets inferred), callees are inlined
or replaced by their contract, `await`s of anything the scheduler decides are rely/guarantee points.  Every assertion met on the
way is a proof obligation, sent to z3 (and, in the thorough tier, to cvc5 as well).
"""
import ast
import importlib
import os
import time

import z3

from . import frontend
from .frontend import Unsupported
from .values import *
from .values import _in, _same

NONE = None


# ---------------------------------------------------------------- control flow of the interpreted program
class PyExc(Exception):
    def __init__(self, value):
        self.value = value


class ReturnSig(Exception):
    def __init__(self, value):
        self.value = value


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class GenClose(Exception):
    """the consumer of a push-style generator left its loop"""

    def __init__(self, inner):
        self.inner = inner


# ---------------------------------------------------------------- control of the exploration
class PathEnd(Exception):
    """this path is finished (infeasible, or cut at a loop back-edge)"""


class Restart(Exception):
    """loop information changed"""


def is_true(t):
    return t is True or (z3.is_expr(t) and z3.is_true(t))


def is_false(t):
    return t is False or (z3.is_expr(t) and z3.is_false(t))


def zbool(t):
    return z3.BoolVal(t) if isinstance(t, bool) else t


C_INT = {
    "bint": None, "int": (-(2**31), 2**31 - 1), "unsigned int": (0, 2**32 - 1), "long": (-(2**63), 2**63 - 1),
    "long long": (-(2**63), 2**63 - 1), "long long int": (-(2**63), 2**63 - 1), "long int": (-(2**63), 2**63 - 1),
    "unsigned long long": (0, 2**64 - 1), "unsigned long long int": (0, 2**64 - 1), "Py_ssize_t": (-(2**63), 2**63 - 1),
    "uint8_t": (0, 255), "uint16_t": (0, 65535), "unsigned long": (0, 2**64 - 1), "size_t": (0, 2**64 - 1),
    "unsigned char": (0, 255), "time_t": (-(2**63), 2**63 - 1), "unsigned short": (0, 65535), "short": (-32768, 32767),
}


class LoopInfo:
    def __init__(self):
        self.havoc = {}  # lockey -> set of kinds
        self.dropped = set()
        self.events = False
        self.collects = False


class Obligation:
    def __init__(self, name, status, path, model=None, smt=None, secs=0.0, where=None):
        self.name, self.status, self.path, self.model, self.smt, self.secs, self.where = (
            name, status, path, model, smt, secs, where,
        )


class Verifier:
    """one contract: explores all paths of contract.run(run)"""

    def __init__(self, world, contract, timeout_ms=10000, max_paths=4000, deadline=None, keep_smt=False):
        self.world = world
        self.contract = contract
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.loops = {}
        self.changed = False
        self.final = False
        self.keep_smt = keep_smt
        self.deadline = deadline
        self.solver_s = 0.0
        self.queries = 0

    def run(self):
        passes = 0
        while True:
            passes += 1
            self.changed = False
            self.obl = {}
            self.feas = {}
            self.covers = {}
            self.outcomes = []
            self.npaths = 0
            self.inlined = set()
            self.assumed = set()
            stack = [()]
            while stack:
                prefix = stack.pop()
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Unsupported(f"more than {self.max_paths} paths")
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported("time budget used up")
                r = Run(self, prefix)
                try:
                    try:
                        r.begin()
                        self.contract.run(r)
                        self.outcomes.append(r.outcome)
                    except PathEnd:
                        pass
                    except PyExc as e:
                        raise Unsupported(f"uncaught interpreted exception reached the contract: {e.value!r} {getattr(e.value,'fields','')} at {r.where()}")
                    except (ReturnSig, BreakSig, ContinueSig, GenClose) as e:
                        raise Unsupported(f"control signal escaped: {e!r}")
                finally:
                    r.undo()
                stack.extend(r.siblings)
            if not self.changed:
                break
            if passes > 60:
                raise Unsupported("loop invariants did not stabilise")
        self.passes = passes
        return self


LIBS = ("async_property",)  # pure python dependencies whose installed source is read like the repository's


def lib_root(top):
    import importlib.util

    return os.path.dirname(list(importlib.util.find_spec(top).submodule_search_locations)[0])


def interpreted(name):
    top = name.partition(".")[0]
    return top == "a_sync" or top in LIBS


class World:
    """the package under verification, parsed from `root`; shared by all contracts of one process"""

    def __init__(self, root):
        self.root = root
        self.modules = {}
        self.models = {}  # id(pyobj) or dotted path -> Native / value
        self.model_classes = {}
        self._keep = []
        self.setup = None
        from . import models

        models.install(self)

    # models -----------------------------------------------------------------
    def register(self, path, val):
        obj = resolve(path)
        if obj is not None:
            self._keep.append(obj)
            self.models[id(obj)] = val
        self.models[path] = val

    def model_of(self, ext):
        if ext.pyobj is not None and id(ext.pyobj) in self.models:
            return self.models[id(ext.pyobj)]
        return self.models.get(ext.path)

    # modules ----------------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.partition(".")[0]
        if top != "a_sync" and top not in LIBS:
            return None
        src = frontend.load(self.root if top == "a_sync" else lib_root(top), name)
        if src is None:
            return None
        parent, _, leaf = name.rpartition(".")
        if parent:
            self.module(parent)
            if name in self.modules:
                return self.modules[name]
        m = Module(name)
        m.src = src
        m.is_pkg = getattr(src, "is_pkg", False)
        self.modules[name] = m
        m.ns["__name__"] = name
        # parents first (they are packages); the import of a submodule sets the attribute on the parent
        parent, _, leaf = name.rpartition(".")
        if parent:
            pm = self.module(parent)
        run = self.setup_run()
        env = Env()
        env.vars = m.ns
        fr = Frame(run, env, m, None, name + ".<module>", None)
        for st in src.tree.body:
            try:
                run.exec_stmt(st, fr)
            except (Unsupported, PyExc, PathEnd) as e:
                if os.environ.get("PYVC_DEBUG_IMPORT"):
                    print("poison", name, getattr(st, "lineno", 0), type(e), e, getattr(getattr(e, "value", None), "fields", ""))
                for n in bound_names(st):
                    if n not in m.ns:
                        m.ns[n] = Poison(f"{name}:{getattr(st,'lineno',0)}: {e} {getattr(e,'value','')}")
        if parent and pm is not None and leaf not in pm.ns:
            pm.ns[leaf] = m
        return m

    def setup_run(self):
        class _C:
            loops_allowed = False

            def run(self, r):
                pass

        v = Verifier(self, _C())
        v.obl, v.feas, v.covers, v.inlined, v.assumed = {}, {}, {}, set(), set()
        r = Run(v, ())
        r.setup = True
        return r

    def fn(self, path):
        """repo function/class by 'module:qual.name'"""
        mod, _, qual = path.partition(":")
        m = self.module(mod)
        if m is None:
            raise Unsupported(f"no module {mod}")
        cur = None
        for i, p in enumerate(qual.split(".")):
            if i == 0:
                if p not in m.ns:
                    raise Unsupported(f"{mod} has no {p}")
                cur = m.ns[p]
            else:
                found = None
                for c in cur.mro():
                    if isinstance(c, Cls) and p in c.ns:
                        found = c.ns[p]
                        break
                if found is None:
                    raise Unsupported(f"{path}: no {p}")
                cur = found
            if isinstance(cur, Poison):
                raise Unsupported(cur.why)
        return cur


class Poison(Val):
    def __init__(self, why):
        self.why = why


def resolve(path):
    parts = path.split(".")
    for i in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:i]))
        except Exception:
            continue
        try:
            for p in parts[i:]:
                o = getattr(o, p)
            return o
        except AttributeError:
            if i == 1:
                return None
    if len(parts) == 1:
        import builtins

        return getattr(builtins, path, None)
    return None


def bound_names(st):
    out = set()
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.alias):
            out.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


_local_cache = {}


def local_info(node):
    """(locals, globals, nonlocals, is_generator) of a function body"""
    k = id(node)
    if k in _local_cache:
        return _local_cache[k][1]
    loc, glo, non, gen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        loc.add(x.arg)
    if a.vararg:
        loc.add(a.vararg.arg)
    if a.kwarg:
        loc.add(a.kwarg.arg)

    def visit(n, top=False):
        nonlocal gen
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                visit(g.iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    loc.add(w.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.alias):
            loc.add((n.asname or n.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.Global):
            glo.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            non.update(n.names)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        for c in ast.iter_child_nodes(n):
            visit(c)

    if isinstance(node, ast.Lambda):
        visit(node.body)
    else:
        for s in node.body:
            visit(s)
    r = (loc - glo - non, glo, non, gen)
    _local_cache[k] = (node, r)
    return r


class Frame:
    def __init__(self, run, env, module, cls, qualname, fn):
        self.run, self.env, self.module, self.cls, self.qualname, self.fn = run, env, module, cls, qualname, fn
        self.ctypes = dict(getattr(getattr(fn, "node", None), "ctypes", {}) or {})
        self.on_yield = None
        self.exc = None  # exception being handled
        self.lineno = 0


class Run:
    def __init__(self, v, prefix):
        self.v = v
        self.world = v.world
        self.prefix = prefix
        self.dec = []
        self.siblings = []
        self.nch = 0
        self.npr = 0
        self.nfresh = {}
        self.nserial = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", v.timeout_ms)
        self.pc = []
        self.trace = []
        self.frames = []
        self.outcome = None
        self.undo_log = []
        self.loopstack = []
        self.mutations = []
        self.ghost_loops = []
        self.consumers = []  # (collection being built from an iteration, frame whose loop consumes it)
        self.cutstack = []
        self.cutlog = []
        self.setup = False
        self.isinst_memo = {}
        self.ghost = None
        self.summaries = {}
        self.obj_by_serial = {}
        self.labels = []
        self.hooks = {}
        self.assumptions = []

    # -- basics ----------------------------------------------------------------
    def begin(self):
        self.ghost = self.new(Obj(Ext("ghost")))
        c = self.v.contract
        self.summaries.update(getattr(c, "summaries", {}) or {})

    def undo(self):
        for o, k, old in reversed(self.undo_log):
            o.setloc(k, old)
        self.undo_log = []

    def where(self):
        return " > ".join(f"{f.qualname}:{f.lineno}" for f in self.frames[-4:])

    def fresh_name(self, base):
        n = self.nfresh.get(base, 0)
        self.nfresh[base] = n + 1
        return f"{base}!{n}"

    def fresh(self, base, sort="V"):
        n = self.fresh_name(base)
        if sort == "V":
            return SV(z3.Const(n, V))
        if sort == "int":
            return SInt(z3.Int(n))
        if sort == "bool":
            return SBool(z3.Bool(n))
        if sort == "str":
            return SStr(z3.String(n))
        if sort == "real":
            return SReal(z3.Real(n))
        if sort == "seq":
            return z3.Const(n, SeqV)
        raise ValueError(sort)

    def new(self, o):
        self.nserial += 1
        o.serial = self.nserial if not self.setup else None
        if self.setup:
            o.shared = True
        else:
            self.obj_by_serial[o.serial] = o
        return o

    def list(self, items=None, seq=None, kind="list"):
        return self.new(ListObj(items, seq, kind))

    def dict(self, entries=None, rest=None):
        return self.new(DictObj({k: (v if isinstance(v, tuple) and len(v) == 2 and v[0].__class__ is P else (True, v)) for k, v in (entries or {}).items()}, rest))

    def assume(self, cond):
        if is_true(cond):
            return
        if is_false(cond):
            raise PathEnd()
        self.pc.append(cond)
        self.solver.add(cond)

    def _check(self, *conds):
        t = time.time()
        try:
            r = self.solver.check(*conds)
        except z3.Z3Exception:
            r = z3.unknown
        self.v.solver_s += time.time() - t
        self.v.queries += 1
        return r

    def feasible(self, cond):
        if is_true(cond):
            return True
        if is_false(cond):
            return False
        return self._check(cond) != z3.unsat

    def choose(self, conds, labels=None):
        """fork over the given conditions (assumed to cover everything); returns the index taken"""
        conds = [z3.simplify(c) if z3.is_expr(c) else c for c in conds]
        for i, c in enumerate(conds):
            if is_true(c) and all(is_false(d) for j, d in enumerate(conds) if j != i):
                return i
        if self.setup:
            raise Unsupported("symbolic branch at import time")
        self.nch += 1
        key = (tuple(self.dec), self.nch)
        ok = self.v.feas.get(key)
        if ok is None:
            ok = [i for i, c in enumerate(conds) if self.feasible(c)]
            self.v.feas[key] = ok
        if not ok:
            raise PathEnd()
        if len(ok) == 1:
            self.assume(conds[ok[0]])
            return ok[0]
        n = len(self.dec)
        if n < len(self.prefix):
            i = self.prefix[n]
            if i >= len(conds) and self.v.changed:
                raise PathEnd()
        else:
            i = ok[0]
            for j in reversed(ok[1:]):
                self.siblings.append(tuple(self.dec) + (j,))
        self.dec.append(i)
        self.assume(conds[i])
        if labels:
            self.labels.append(labels[i])
        return i

    def fork(self, *labels):
        """free nondeterministic choice"""
        return self.choose([True_fresh(self) for _ in labels], labels) if False else self._fork(labels)

    def _fork(self, labels):
        if self.setup:
            raise Unsupported("fork at import time")
        self.nch += 1
        n = len(self.dec)
        if n < len(self.prefix):
            i = self.prefix[n]
            if i >= len(labels) and self.v.changed:  # a decision of before a loop invariant was dropped: this pass is void anyway
                raise PathEnd()
        else:
            i = 0
            for j in range(len(labels) - 1, 0, -1):
                self.siblings.append(tuple(self.dec) + (j,))
        self.dec.append(i)
        self.labels.append(labels[i])
        return i

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        return self.choose([cond, z3.Not(cond)], [f"{short(cond)}", f"not {short(cond)}"]) == 0

    def prove(self, goal, name, assume=True):
        """a proof obligation"""
        self.npr += 1
        key = (tuple(self.dec), self.nch, self.npr)
        if key not in self.v.obl:
            t = time.time()
            smt = None
            if is_true(goal):
                status, model = "proved", None
            else:
                g = zbool(goal)
                if self.v.keep_smt:
                    s2 = z3.Solver()
                    s2.add(*self.pc)
                    s2.add(z3.Not(g))
                    smt = s2.to_smt2()
                r = self._check(z3.Not(g))
                model = None
                if r == z3.unsat:
                    status = "proved"
                elif r == z3.sat:
                    status = "failed"
                    m = self.solver.model()
                    model = {str(d): str(m[d]) for d in m.decls()}
                else:
                    status = "unknown"
            self.v.obl[key] = Obligation(
                name, status, list(self.labels), model, smt, time.time() - t, self.where()
            )
        o = self.v.obl[key]
        if assume and not is_true(goal):
            if is_false(goal):
                raise PathEnd()
            self.assume(goal)
            if o.status != "proved":
                if self._check() == z3.unsat:
                    raise PathEnd()
        return o.status == "proved"

    def holds(self, goal):
        """does the path condition entail goal? (used for loop-invariant candidates; not an obligation)"""
        if is_true(goal):
            return True
        if is_false(goal):
            return self._check() == z3.unsat
        return self._check(z3.Not(goal)) == z3.unsat

    def cover(self, name):
        """reachability witness: the path condition here is satisfiable"""
        if name not in self.v.covers or not self.v.covers[name]:
            self.v.covers[name] = self._check() == z3.sat

    def event(self, *ev):
        self.trace.append(ev)

    # -- mutation --------------------------------------------------------------
    def write(self, o, k, v):
        """all mutation goes through here"""
        if getattr(o, "shared", False) and not self.setup:
            self.undo_log.append((o, k, o.locs().get(k, UNSET)))
        if self.loopstack:
            self.mutations.append((o, k))
        o.setloc(k, v)

    def gset(self, k, v):
        self.write(self.ghost, k, v)

    def gget(self, k):
        return self.ghost.fields[k]

    # -- conversions -------------------------------------------------------------
    def to_V(self, v):
        if v is None:
            return V.none
        if v is True or v is False:
            return V.boolv(v)
        if isinstance(v, int):
            return V.intv(v)
        if isinstance(v, float):
            return V.fltv(v)
        if isinstance(v, str):
            return V.strv(z3.StringVal(v))
        if isinstance(v, SV):
            return v.t
        if isinstance(v, SInt):
            return V.intv(v.t)
        if isinstance(v, SBool):
            return V.boolv(v.t)
        if isinstance(v, SStr):
            return V.strv(v.t)
        if isinstance(v, SReal):
            return V.fltv(v.t)
        if isinstance(v, tuple):
            t = V.nilv
            for x in reversed(v):
                t = V.consv(self.to_V(x), t)
            return t
        if isinstance(v, (Heap, Val, bytes)) or v is ...:
            if isinstance(v, Heap) and v.serial is not None:
                return V.objv(v.serial)
            # meta values without serial: give them one
            tab = self.world.__dict__.setdefault("_meta_ids", {})
            key = ("b", v) if isinstance(v, bytes) else (("ext", v.path) if isinstance(v, Ext) else id(v))
            if key not in tab:
                tab[key] = -1 - len(tab)
                self.world._keep.append(v)
            self.world.__dict__.setdefault("_meta_vals", {})[tab[key]] = v
            return V.objv(tab[key])
        raise Unsupported(f"cannot embed {v!r}")

    def from_V(self, t, model=None):
        t = z3.simplify(t)
        if z3.is_app(t):
            d = t.decl().name()
            if d == "none":
                return None
            if d == "boolv":
                a = t.arg(0)
                return True if z3.is_true(a) else False if z3.is_false(a) else SBool(a)
            if d == "intv":
                a = t.arg(0)
                return a.as_long() if z3.is_int_value(a) else SInt(a)
            if d == "strv":
                a = t.arg(0)
                return a.as_string() if z3.is_string_value(a) else SStr(a)
            if d == "objv" and z3.is_int_value(t.arg(0)):
                i = t.arg(0).as_long()
                if i in self.obj_by_serial:
                    return self.obj_by_serial[i]
                mv = self.world.__dict__.get("_meta_vals", {})
                if i in mv:
                    return mv[i]
            if d in ("nilv", "consv"):
                out = []
                while t.decl().name() == "consv":
                    out.append(self.from_V(t.arg(0)))
                    t = z3.simplify(t.arg(1))
                if t.decl().name() == "nilv":
                    return tuple(out)
                raise Unsupported("partial tuple")
        return SV(t, model)

    # -- truth, equality, order ----------------------------------------------------
    def truth_term(self, v):
        """bool(v) as python bool or z3 Bool, without forking"""
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SReal):
            return v.t != 0
        if isinstance(v, SStr):
            return v.t != z3.StringVal("")
        if isinstance(v, SV):
            if v.model is not None and hasattr(v.model, "truth"):
                r = v.model.truth(self, v)
                if r is not None:
                    return r
            t = v.t
            return z3.If(
                V.is_none(t), False,
                z3.If(V.is_boolv(t), V.b(t), z3.If(V.is_intv(t), V.i(t) != 0, z3.If(V.is_strv(t), V.s(t) != "", z3.If(V.is_nilv(t), False, z3.If(V.is_consv(t), True, f_truthy(t)))))),
            )
        if getattr(v, "g", None) is not None and isinstance(v, (ListObj, DictObj)):
            return v.g.truth(self)
        if isinstance(v, ListObj):
            if v.items is not None:
                return bool(v.items)
            return z3.Length(v.seq) > 0
        if isinstance(v, DictObj):
            ps = [p for p, _ in v.entries.values()]
            if any(is_true(p) for p in ps):
                return True
            t = [zbool(p) for p in ps]
            if v.rest is not None:
                t.append(z3.Bool(f"rest_nonempty({v.rest})"))
            return z3.Or(*t) if t else False
        if isinstance(v, SetObj):
            if any(is_true(p) for p, _ in v.items):
                return True
            return z3.Or(*[zbool(p) for p, _ in v.items]) if v.items else False
        if isinstance(v, Obj):
            for nm in ("__bool__", "__len__"):
                m = self.class_attr(v.cls, nm)
                if m is not UNSET:
                    r = self.call(self.bind(m, v), [], {})
                    return self.truth_term(r)
            st = v.fields.get("#dict", UNSET)
            if st is not UNSET:
                return self.truth_term(st)
            return True
        if hasattr(v, "truth"):
            return v.truth(self)
        if isinstance(v, Heap) and hasattr(v, "length"):
            n = v.length(self)
            return n > 0
        h = self.hooks.get("ext_truth")
        if h and isinstance(v, Ext):
            r = h(self, v)
            if r is not None:
                return r
        if isinstance(v, (Val, type(...))):
            return True
        raise Unsupported(f"truth of {v!r}")

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def same(self, a, b):
        """`a is b`"""
        if isinstance(a, (Heap,)) and isinstance(b, (Heap,)):
            return a is b
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            o = b if (a is None or isinstance(a, bool)) else a
            c = a if o is b else b
            if isinstance(o, (SV, SBool)):
                if isinstance(o, SBool):
                    return (o.t if c else z3.Not(o.t)) if isinstance(c, bool) else False
                return z3.simplify(o.t == self.to_V(c))
            return a is b
        if isinstance(a, (SV, SInt, SBool, SStr)) or isinstance(b, (SV, SInt, SBool, SStr)):
            return z3.simplify(self.to_V(a) == self.to_V(b))
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.fn is b.fn and a.self_ is b.self_ and False or a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            if a.pyobj is not None and b.pyobj is not None:
                return a.pyobj is b.pyobj
            return a.path == b.path
        if isinstance(a, (int, str, float, tuple, bytes)) and type(a) is type(b):
            return a == b
        return a is b

    def eq(self, a, b):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        num = (int, float)
        if isinstance(a, num) and isinstance(b, num):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (SInt, SReal) + num) and isinstance(b, (SInt, SReal) + num):
            return num_term(a) == num_term(b)
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            return str_term(a) == str_term(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ts = [self.eq(x, y) for x, y in zip(a, b)]
            if any(is_false(t) for t in ts):
                return False
            return z3.And(*[zbool(t) for t in ts]) if ts else True
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            if a.items is not None and b.items is not None:
                return self.eq(tuple(a.items), tuple(b.items))
            return self.seq_of(a) == self.seq_of(b)
        if a is None or b is None:
            return self.same(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                m = self.class_attr(x.cls, "__eq__")
                if m is not UNSET:
                    return self.truth_term(self.call(self.bind(m, x), [y], {}))
        s = self.same(a, b)
        if isinstance(a, SV) or isinstance(b, SV):
            if is_true(s):
                return True
            ta, tb = self.to_V(a), self.to_V(b)
            prim = lambda t: z3.Or(V.is_none(t), V.is_boolv(t), V.is_intv(t), V.is_strv(t))
            return z3.simplify(z3.Or(ta == tb, z3.And(z3.Not(z3.And(prim(ta), prim(tb))), f_eq(ta, tb))))
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return zb(a) == zb(b)
        return s

    def seq_of(self, l):
        if isinstance(l, tuple):
            ts = [z3.Unit(self.to_V(x)) for x in l]
        elif l.items is not None:
            ts = [z3.Unit(self.to_V(x)) for x in l.items]
        else:
            return l.seq
        if not ts:
            return z3.Empty(SeqV)
        return ts[0] if len(ts) == 1 else z3.Concat(*ts)

    # -- exceptions ------------------------------------------------------------------
    def exc_class(self, name):
        import builtins
        import asyncio

        c = getattr(builtins, name, None)
        if c is None:
            c = {"CancelledError": asyncio.CancelledError, "InvalidStateError": asyncio.InvalidStateError,
                 "queue.Empty": __import__("queue").Empty, "QueueEmpty": asyncio.QueueEmpty, "QueueFull": asyncio.QueueFull, "asyncio.TimeoutError": asyncio.TimeoutError}[name]
        return Ext(f"{c.__module__}.{c.__qualname__}", c)

    def mk_exc(self, cls, *args):
        if isinstance(cls, str):
            cls = self.exc_class(cls)
        o = self.new(Obj(cls))
        o.fields["args"] = tuple(args)
        return o

    def raise_(self, cls, *args):
        raise PyExc(self.mk_exc(cls, *args))

    def fresh_exc(self, base="exc"):
        e = self.fresh(base)
        self.assume(z3.Not(z3.Or(V.is_none(e.t), V.is_boolv(e.t), V.is_intv(e.t), V.is_strv(e.t), V.is_consv(e.t), V.is_nilv(e.t))))
        e.model = EXC_MODEL
        return e

    def subclass(self, a, b):
        """python bool"""
        if _same(a, b):
            return True
        if isinstance(a, Cls):
            for c in a.mro():
                if _same(c, b):
                    return True
                if isinstance(c, Ext) and isinstance(b, Ext) and isinstance(c.pyobj, type) and isinstance(b.pyobj, type):
                    try:
                        if issubclass(c.pyobj, b.pyobj):
                            return True
                    except TypeError:
                        pass
            # structural ABCs
            if isinstance(b, Ext) and isinstance(b.pyobj, type):
                need = STRUCTURAL.get(b.pyobj.__name__)
                if need:
                    return all(self.class_attr(a, n) is not UNSET for n in need)
            return False
        if isinstance(a, Ext) and isinstance(b, Ext) and isinstance(a.pyobj, type) and isinstance(b.pyobj, type):
            return issubclass(a.pyobj, b.pyobj)
        if isinstance(a, Ext) and isinstance(b, Cls):
            return False
        raise Unsupported(f"issubclass({a},{b})")

    def isinstance_(self, v, c):
        """isinstance(v, c) -> bool or z3 Bool"""
        if isinstance(c, tuple):
            ts = [self.isinstance_(v, x) for x in c]
            if any(is_true(t) for t in ts):
                return True
            ts = [zbool(t) for t in ts if not is_false(t)]
            return z3.Or(*ts) if ts else False
        c = self.unwrap_cls(c)
        if isinstance(v, SV):
            if v.model is not None and hasattr(v.model, "isinstance"):
                r = v.model.isinstance(self, v, c)
                if r is not None:
                    return r
            return self.isinst_opaque(v, c)
        k = self.type_of(v)
        if k is None:
            raise Unsupported(f"type of {v!r}")
        return self.subclass(k, c)

    def unwrap_cls(self, c):
        if isinstance(c, Ext) and c.pyobj is not None and not isinstance(c.pyobj, type):
            o = getattr(c.pyobj, "__origin__", None)
            if isinstance(o, type):
                return Ext(f"{o.__module__}.{o.__qualname__}", o)
        return c

    def cid(self, c):
        tab = self.world.__dict__.setdefault("_cids", {})
        key = c.path if isinstance(c, Ext) else c.qualname
        if isinstance(c, Ext) and isinstance(c.pyobj, type):
            key = f"{c.pyobj.__module__}.{c.pyobj.__qualname__}"
        return tab.setdefault(key, len(tab))

    def isinst_opaque(self, v, c):
        t = v.t
        py = c.pyobj if isinstance(c, Ext) else None
        if py is object:
            return True
        if py is bool:
            return V.is_boolv(t)
        if py is int:
            return z3.Or(V.is_intv(t), V.is_boolv(t))
        if py is str:
            return V.is_strv(t)
        if py is type(None):
            return V.is_none(t)
        memo = self.isinst_memo.setdefault(t.get_id(), (t, []))[1]
        if v.model is EXC_MODEL or (py and isinstance(py, type) and issubclass(py, BaseException)):
            if py is BaseException and v.model is EXC_MODEL:
                return True
        term = f_isinst(t, self.cid(c))
        # lattice facts w.r.t. classes asked before on this path
        for d, dt in memo:
            if d is c or _same(d, c):
                continue
            try:
                if self.subclass(c, d):
                    self.assume(z3.Implies(term, dt))
                elif self.subclass(d, c):
                    self.assume(z3.Implies(dt, term))
                elif is_excls(c) and is_excls(d):
                    self.assume(z3.Not(z3.And(term, dt)))
            except Unsupported:
                pass
        if not any(_same(d, c) for d, _ in memo):
            memo.append((c, term))
            prim = z3.Or(V.is_none(t), V.is_boolv(t), V.is_intv(t), V.is_strv(t))
            self.assume(z3.Implies(prim, z3.Not(term)))
        return term

    def type_of(self, v):
        if isinstance(v, (Obj,)):
            return v.cls
        py = None
        if v is None:
            py = type(None)
        elif isinstance(v, (bool, SBool)):
            py = bool
        elif isinstance(v, (int, SInt)):
            py = int
        elif isinstance(v, (float, SReal)):
            py = float
        elif isinstance(v, SBytes):
            return Ext("builtins.bytes", bytes)
        elif isinstance(v, (str, SStr)):
            py = str
        elif isinstance(v, bytes):
            py = bytes
        elif isinstance(v, tuple):
            py = tuple
        elif isinstance(v, ListObj):
            if v.kind == "deque":
                import collections

                py = collections.deque
            elif v.kind == "tuple":
                py = tuple
            elif v.kind == "set":
                py = set
            else:
                py = list
        elif isinstance(v, DictObj):
            if v.kind == "defaultdict":
                import collections

                py = collections.defaultdict
            else:
                py = dict
        elif isinstance(v, SetObj):
            py = set
        elif isinstance(v, Coro):
            import types

            py = types.CoroutineType
        elif isinstance(v, Gen):
            import types

            py = types.AsyncGeneratorType if v.is_async else types.GeneratorType
        elif isinstance(v, (Closure, Native)):
            import types

            py = types.FunctionType
        elif isinstance(v, Bound):
            import types

            py = types.MethodType
        elif isinstance(v, Module):
            import types

            py = types.ModuleType
        elif isinstance(v, Cls):
            return v.metaclass or Ext("builtins.type", type)
        elif isinstance(v, Ext) and v.pyobj is not None:
            py = type(v.pyobj)
        elif isinstance(v, Prop):
            py = property
        elif getattr(v, "cls", None) is not None:
            return v.cls
        if py is None:
            return None
        return Ext(f"{py.__module__}.{py.__qualname__}", py)

    def exc_matches(self, e, c):
        """fork on whether exception value e is caught by `except c`"""
        t = self.isinstance_(e, c)
        return self.branch(t)

    # -- attributes ------------------------------------------------------------------
    def class_attr(self, cls, name):
        if isinstance(cls, Cls):
            for c in cls.mro():
                if isinstance(c, Cls) and name in c.ns:
                    r = c.ns[name]
                    if isinstance(r, Poison):
                        raise Unsupported(r.why)
                    return r
        return UNSET

    def class_has_ext_base(self, cls):
        return isinstance(cls, Ext) and not (isinstance(cls.pyobj, type)) or (
            isinstance(cls, Cls)
            and any(isinstance(c, Ext) and not (isinstance(c.pyobj, type) and c.pyobj.__module__ in ("builtins", "typing", "collections.abc", "abc", "_collections_abc")) for c in cls.mro())
        )

    def bind(self, f, o):
        if isinstance(f, (Closure, Native)):
            return Bound(f, o)
        if isinstance(f, StaticM):
            return f.fn
        if isinstance(f, ClassM):
            return Bound(f.fn, o.cls if isinstance(o, Obj) else o)
        return f

    def getattr_(self, o, name, default=UNSET):
        try:
            return self._getattr(o, name)
        except PyExc as e:
            if default is not UNSET and isinstance(e.value, Obj) and self.subclass(e.value.cls, self.exc_class("AttributeError")):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, Obj):
            gab = self.class_attr(o.cls, "__getattribute__")
            if isinstance(gab, Closure):
                return self.call(self.bind(gab, o), [name], {})
            return self.obj_getattr(o, name)
        if isinstance(o, Module):
            if name in o.ns:
                v = o.ns[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            sub = self.world.module(o.name + "." + name)
            if sub is not None:
                return sub
            self.raise_("AttributeError", f"module {o.name} has no {name}")
        if isinstance(o, Ext):
            return self.ext_getattr(o, name)
        if isinstance(o, Cls):
            ca = self.class_attr(o, name)
            if ca is UNSET and o.metaclass is not None:
                mc = self.class_attr(o.metaclass, name)
                if mc is not UNSET:
                    if isinstance(mc, Prop):
                        return self.call(mc.fget, [o], {})
                    return self.bind(mc, o)
            if ca is not UNSET:
                if isinstance(ca, ClassM):
                    return Bound(ca.fn, o)
                if isinstance(ca, StaticM):
                    return ca.fn
                if isinstance(ca, Obj):
                    g = self.class_attr(ca.cls, "__get__")
                    if g is not UNSET:
                        return self.call(self.bind(g, ca), [None, o], {})
                return ca
            if name == "__name__":
                return o.name
            if name == "__qualname__":
                return o.name
            if name == "__module__":
                return o.module.name if o.module else "?"
            if name == "__doc__":
                return self.fresh("doc")
            if name == "__mro__":
                return tuple(o.mro())
            if name == "__bases__":
                return tuple(o.bases)
            if name == "__dict__":
                return self.new(DictObj({k: (True, v) for k, v in o.ns.items()}))
            for c in o.mro():
                if isinstance(c, Ext):
                    r = self.ext_getattr(c, name, quiet=True)
                    if r is not UNSET:
                        return r
            self.raise_("AttributeError", f"type {o.name} has no {name}")
        if isinstance(o, SV):
            if o.model is not None:
                r = o.model.getattr(self, o, name)
                if r is not UNSET:
                    return r
            h = self.hooks.get("opaque_attr")
            if h:
                r = h(self, o, name)
                if r is not UNSET:
                    return r
            if name == "__class__":
                return SV(z3.Function("class_of", V, V)(o.t))
            return SV(z3.Function("attr_" + name, V, V)(o.t))
        if isinstance(o, Closure):
            if name in o.attrs:
                return o.attrs[name]
            if name in ("__name__",):
                return o.name
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return None
            if name == "__call__":
                return o
            if name == "__dict__":
                return self.dict({})
            if name == "__class__":
                return self.type_of(o)
            if name == "__get__":
                return Native("__get__", lambda r, a, k: r.bind(o, a[0]) if a and a[0] is not None else o)
            self.raise_("AttributeError", f"function {o.name} has no {name}")
        if isinstance(o, StructVal):
            return o.fields[name]
        if isinstance(o, Bound):
            if name == "__self__":
                return o.self_
            if name == "__func__":
                return o.fn
            return self._getattr(o.fn, name)
        from . import models

        r = models.getattr_builtin(self, o, name)
        if r is not UNSET:
            return r
        if name == "__class__":
            return self.type_of(o)
        if isinstance(o, Coro) and not hasattr(__import__("types").CoroutineType, name):
            self.raise_("AttributeError", name)
        if isinstance(o, Val) and not isinstance(o, (SInt, SBool, SStr, SReal)):
            if name == "__await__" and (isinstance(o, Coro) or hasattr(o, "await_")):
                return Native("__await__", lambda r, a, k: AwaitIter(o))
            raise Unsupported(f"attribute {name} of {o!r} at {self.where()}")
        self.raise_("AttributeError", f"{o!r} has no attribute {name}")

    def obj_getattr(self, o, name):
        ca = self.class_attr(o.cls, name)
        if isinstance(ca, Prop) and not ca.cached:
            return self.call(ca.fget, [o], {})
        is_data = isinstance(ca, Obj) and self.class_attr(ca.cls, "__set__") is not UNSET
        if is_data:
            return self.call(self.bind(self.class_attr(ca.cls, "__get__"), ca), [o, o.cls], {})
        if name in o.fields and o.fields[name] is not UNSET:
            return o.fields[name]
        if ca is not UNSET:
            if isinstance(ca, Prop):
                v = self.call(ca.fget, [o], {})
                self.write(o, name, v)
                return v
            if isinstance(ca, Obj):
                g = self.class_attr(ca.cls, "__get__")
                if g is not UNSET:
                    return self.call(self.bind(g, ca), [o, o.cls], {})
                return ca
            return self.bind(ca, o)
        if name == "__class__":
            return o.cls
        if name == "__dict__":
            return InstDict(o)
        if name == "__name__" and "__name__" not in o.fields and isinstance(o.cls, Cls):
            pass
        if name == "__module__" and isinstance(o.cls, Cls) and o.cls.module:
            return o.cls.module.name
        if name == "__doc__":
            return o.fields.get("__doc__", None)
        if name in getattr(o.cls, "ctypes", {}) or any(name in getattr(c, "ctypes", {}) for c in (o.cls.mro() if isinstance(o.cls, Cls) else [])):
            ty = next(c.ctypes[name] for c in o.cls.mro() if name in getattr(c, "ctypes", {}))
            if ty in C_INT:
                return False if ty == "bint" else 0
            return None
        ga = self.class_attr(o.cls, "__getattr__")
        if ga is not UNSET:
            if isinstance(o.cls, Cls):
                for c in o.cls.mro():
                    if isinstance(c, Ext) and c.pyobj is not object and c.path.startswith("concurrent.futures"):
                        r = self.ext_getattr(c, name, quiet=True)
                        if r is not UNSET:
                            return Bound(r, o) if isinstance(r, Ext) else self.bind(r, o)
            return self.call(self.bind(ga, o), [name], {})
        if is_excobj(self, o):
            if name == "args":
                return o.fields.get("args", ())
            if name == "with_traceback":
                return Native("with_traceback", lambda r, a, k: o)
            if name in ("__cause__", "__traceback__", "__context__"):
                return o.fields.get(name)
            if name == "value":
                return (o.fields.get("args") or (None,))[0]
        if isinstance(o.cls, Cls):
            for c in o.cls.mro():
                if isinstance(c, Ext):
                    r = self.ext_getattr(c, name, quiet=True)
                    if r is not UNSET:
                        if isinstance(r, Ext):
                            return Bound(r, o)
                        return self.bind(r, o)
        elif isinstance(o.cls, Ext):
            r = self.ext_getattr(o.cls, name, quiet=True)
            if r is not UNSET:
                return Bound(r, o) if isinstance(r, Ext) else self.bind(r, o)
        self.raise_("AttributeError", f"{o!r} has no attribute {name}")

    def ext_getattr(self, o, name, quiet=False):
        m = self.world.models.get(o.path + "." + name)
        if m is not None:
            return m
        if o.pyobj is not None:
            try:
                r = getattr(o.pyobj, name)
            except AttributeError:
                import types

                if isinstance(o.pyobj, types.ModuleType):
                    try:
                        r = importlib.import_module(o.path + "." + name)
                    except ImportError:
                        if quiet:
                            return UNSET
                        self.raise_("AttributeError", f"{o.path} has no {name}")
                    return Ext(o.path + "." + name, r)
                if quiet:
                    return UNSET
                self.raise_("AttributeError", f"{o.path} has no {name}")
            return self.wrap_py(o.path + "." + name, r)
        if quiet:
            return UNSET
        return Ext(o.path + "." + name)

    def wrap_py(self, path, r):
        if r is None or isinstance(r, (bool, int, str, float, bytes)):
            return r
        if isinstance(r, tuple) and all(x is None or isinstance(x, (bool, int, str, float)) for x in r):
            return tuple(r)
        if id(r) in self.world.models:
            return self.world.models[id(r)]
        if path in self.world.models:
            return self.world.models[path]
        return Ext(path, r)

    def setattr_(self, o, name, v):
        if isinstance(o, StructVal):
            return self.write(o, name, self.coerce(o.ty.fields[name], v))
        if isinstance(o, Obj):
            ca = self.class_attr(o.cls, name)
            if isinstance(ca, Prop) and not ca.cached:
                if ca.fset is None:
                    self.raise_("AttributeError", f"can't set {name}")
                return self.call(ca.fset, [o, v], {})
            if isinstance(ca, Obj):
                s = self.class_attr(ca.cls, "__set__")
                if s is not UNSET:
                    return self.call(self.bind(s, ca), [o, v], {})
            sa = self.class_attr(o.cls, "__setattr__")
            if sa is not UNSET and not isinstance(sa, Native):
                return self.call(self.bind(sa, o), [name, v], {})
            if isinstance(o.cls, Cls):
                for c in o.cls.mro():
                    ty = getattr(c, "ctypes", {}).get(name)
                    if ty:
                        v = self.coerce(ty, v)
                        break
            self.write(o, name, v)
            return
        if isinstance(o, (Cls,)):
            if getattr(self, "setup", False) or True:
                if not self.setup:
                    self.undo_log.append((_NsLoc(o), name, o.ns.get(name, UNSET)))
                o.ns[name] = v
            return
        if isinstance(o, Module):
            if not self.setup:
                self.undo_log.append((_NsLoc(o), name, o.ns.get(name, UNSET)))
            o.ns[name] = v
            return
        if isinstance(o, Closure):
            o.attrs[name] = v
            return
        if isinstance(o, SV):
            if o.model is not None and hasattr(o.model, "setattr"):
                return o.model.setattr(self, o, name, v)
            self.event("setattr", o, name, v)
            return
        if hasattr(o, "setattr"):
            return o.setattr(self, name, v)
        raise Unsupported(f"setattr {name} on {o!r}")

    # -- C conversions -----------------------------------------------------------------
    def destruct(self, v):
        """a struct that becomes a Python object is a dict"""
        if isinstance(v, StructVal):
            return self.new(DictObj({k: (True, x) for k, x in v.fields.items()}))
        return v

    def coerce(self, ty, v):
        if isinstance(ty, CStruct):
            out = {}
            for f, t in ty.fields.items():
                if isinstance(v, StructVal):
                    x = v.fields[f]
                else:
                    try:
                        x = self.getitem(v, f)
                    except PyExc as e:
                        if isinstance(e.value, Obj) and self.subclass(e.value.cls, self.exc_class("KeyError")):
                            self.raise_("ValueError", f"No value specified for struct attribute '{f}'")
                        raise
                out[f] = self.coerce(t, x)
            return self.new(StructVal(ty, out))
        if ty == "bint":
            t = self.truth_term(v)
            return t if isinstance(t, bool) else SBool(t)
        if ty in C_INT:
            lo, hi = C_INT[ty]
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, float):
                v = int(v)
            if isinstance(v, int):
                if lo <= v <= hi:
                    return v
                self.raise_("OverflowError", f"value out of range for {ty}")
            if isinstance(v, SReal):
                # C conversion truncates towards zero
                v = SInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
            if isinstance(v, SBool):
                return SInt(z3.If(v.t, 1, 0))
            if isinstance(v, SInt):
                if self.branch(z3.And(v.t >= lo, v.t <= hi)):
                    return v
                self.raise_("OverflowError", f"value out of range for {ty}")
            if isinstance(v, SV):
                if self.branch(V.is_intv(v.t)):
                    return self.coerce(ty, SInt(V.i(v.t)))
                if self.branch(V.is_boolv(v.t)):
                    return SInt(z3.If(V.b(v.t), 1, 0))
                if self.branch(V.is_fltv(v.t)):
                    return self.coerce(ty, SReal(V.r(v.t)))
                self.raise_("TypeError", "an integer is required")
            self.raise_("TypeError", f"an integer is required, got {v!r}")
        if ty in ("dict", "list", "tuple", "str", "bytes", "set") and v is not None:
            k = self.type_of(v) if not isinstance(v, SV) else None
            if k is not None and isinstance(k, Ext) and isinstance(k.pyobj, type) and k.pyobj.__name__ != ty:
                self.raise_("TypeError", f"Expected {ty}, got {k.pyobj.__name__}")
        return v

    # -- names ---------------------------------------------------------------------------
    def mangle(self, name, fr):
        if fr.cls and name.startswith("__") and not name.endswith("__"):
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def lookup(self, name, fr):
        mn = self.mangle(name, fr)
        for nm in (mn, name) if mn != name else (name,):
            env = fr.env
            while env is not None:
                if nm in env.vars and env.vars[nm] is not UNSET:
                    v = env.vars[nm]
                    if isinstance(v, Poison):
                        raise Unsupported(v.why)
                    return v
                if env.names is not None and nm in env.names:
                    self.raise_("UnboundLocalError", nm)
                env = env.parent
            if nm in fr.module.ns and fr.module.ns[nm] is not UNSET:
                v = fr.module.ns[nm]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
        from . import models

        if name in models.BUILTINS:
            return models.BUILTINS[name]
        import builtins

        if hasattr(builtins, name):
            return self.wrap_py("builtins." + name, getattr(builtins, name))
        # mutable names of a pending module
        self.raise_("NameError", name)

    def store(self, name, v, fr):
        name = self.mangle(name, fr) if False else name
        ty = fr.ctypes.get(name)
        if ty:
            v = self.coerce(ty, v)
        env = fr.env
        if fr.fn is not None:
            loc, glo, non, _ = local_info(fr.fn.node)
            if name in glo:
                if not self.setup:
                    self.undo_log.append((_NsLoc(fr.module), name, fr.module.ns.get(name, UNSET)))
                fr.module.ns[name] = v
                return
            if name in non:
                e = env.parent
                while e is not None and name not in e.vars:
                    e = e.parent
                env = e or env
        self.write(env, name, v)

    # -- statements ------------------------------------------------------------------------
    def exec_body(self, body, fr):
        for st in body:
            self.exec_stmt(st, fr)

    def exec_stmt(self, st, fr):
        fr.lineno = getattr(st, "lineno", fr.lineno)
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} at {fr.qualname}:{fr.lineno}")
        return m(st, fr)

    def x_Expr(self, st, fr):
        v = st.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Name) and (fr.fn is None):
            return  # a bare annotated name in a class or module body
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "__cdef__":
            n, ty = v.args[0].value, v.args[1].value
            if ty != "object":
                fr.ctypes[n] = ty
                st_ = fr.module.ns.get(ty) if fr.fn is not None else None
                if isinstance(st_, CStruct):
                    fr.ctypes[n] = st_
                    self.write(fr.env, n, self.new(StructVal(st_, {f: self.fresh("uninit", {"bint": "bool"}.get(t, "int")) for f, t in st_.fields.items()})))
                if ty in C_INT and fr.fn is not None and n not in fr.env.vars:
                    pass
            return
        self.ev(v, fr)

    def x_Pass(self, st, fr):
        pass

    def x_Break(self, st, fr):
        raise BreakSig()

    def x_Continue(self, st, fr):
        raise ContinueSig()

    def x_Return(self, st, fr):
        v = self.ev(st.value, fr) if st.value is not None else None
        raise ReturnSig(v)

    def x_Global(self, st, fr):
        pass

    x_Nonlocal = x_Global

    def x_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, st, fr):
        if getattr(fr, "is_class_body", False) and isinstance(st.target, ast.Name):
            an = fr.env.vars.get("__annotations__")
            if an is None:
                an = fr.env.vars["__annotations__"] = self.new(DictObj())
            an.entries[st.target.id] = (True, "annotation")
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr)

    def x_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.binop(type(st.op).__name__, cur, self.ev(st.value, fr), inplace=True)
            self.store(t.id, self.c_wrap(fr.ctypes.get(t.id), new), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            nm = self.attr_mangle(t.attr, fr)
            cur = self.getattr_(o, nm)
            new = self.binop(type(st.op).__name__, cur, self.ev(st.value, fr), inplace=True)
            ty = None
            if isinstance(o, Obj) and isinstance(o.cls, Cls):
                ty = next((c.ctypes[nm] for c in o.cls.mro() if nm in getattr(c, "ctypes", {})), None)
            self.setattr_(o, nm, self.c_wrap(ty, new))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.binop(type(st.op).__name__, cur, self.ev(st.value, fr), inplace=True))
        else:
            raise Unsupported("augassign target")

    def c_wrap(self, ty, v):
        """C arithmetic is treated as mathematical; leaving the range of the type is an obligation"""
        if ty in C_INT and C_INT[ty] and isinstance(v, (int, SInt)) and not isinstance(v, bool):
            lo, hi = C_INT[ty]
            t = num_term(v)
            # The upper bound (2**64 permits / 2**63 counters) is an assumption; the lower bound is an obligation
            if hi > 2**40:
                if lo == 0:
                    self.prove(t >= 0 if z3.is_expr(t) else bool(t >= 0), f"C integer of type {ty} does not wrap below zero")
                self.assume(t <= hi if z3.is_expr(t) else bool(t <= hi))
            else:
                g = z3.And(t >= lo, t <= hi) if z3.is_expr(t) else bool(lo <= t <= hi)
                self.prove(g, f"C integer of type {ty} stays in range")
        return v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), self.attr_mangle(t.attr, fr), self.destruct(v))
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), self.destruct(v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            if any(isinstance(e, ast.Starred) for e in t.elts):
                i = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, self.list(items[i : len(items) - after]), fr)
                for e, x in zip(t.elts[i + 1 :], items[len(items) - after :]):
                    self.assign(e, x, fr)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)
        else:
            raise Unsupported(f"assign to {type(t).__name__}")

    def unpack(self, v, n, star=False):
        if isinstance(v, ListObj) and v.items is not None:
            v = tuple(v.items)
        if isinstance(v, tuple):
            if not star and len(v) != n:
                self.raise_("ValueError", f"unpack {n} from {len(v)}")
            return list(v)
        if isinstance(v, SV) and not star:
            # a tuple of n values, or an error of the user's own making
            if v.model is not None and hasattr(v.model, "unpack"):
                return v.model.unpack(self, v, n)
            t = v.t
            out = []
            shape = []
            for _ in range(n):
                shape.append(V.is_consv(t))
                out.append(SV(V.hd(t)))
                t = V.tl(t)
            shape.append(V.is_nilv(t))
            if self.branch(z3.And(*shape)):
                return [self.from_V(x.t) for x in out]
            self.raise_("ValueError", "unpack")
        it = self.concrete_iter(v)
        if it is not None:
            if not star and len(it) != n:
                self.raise_("ValueError", f"unpack {n} from {len(it)}")
            return it
        raise Unsupported(f"unpack {v!r} at {self.where()}")

    def x_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.lookup(t.id, fr)
                self.write(fr.env, t.id, UNSET)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                k = self.ev(t.slice, fr)
                self.call(self.getattr_(o, "__delitem__"), [k], {})
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                self.delattr_(o, self.attr_mangle(t.attr, fr))
            else:
                raise Unsupported("del")

    def delattr_(self, o, name):
        if isinstance(o, Obj) and name in o.fields and o.fields[name] is not UNSET:
            self.write(o, name, UNSET)
        elif isinstance(o, Obj):
            self.raise_("AttributeError", name)
        else:
            raise Unsupported("delattr")

    def x_If(self, st, fr):
        if self.truth(self.ev(st.test, fr)):
            self.exec_body(st.body, fr)
        else:
            self.exec_body(st.orelse, fr)

    def x_Assert(self, st, fr):
        if not self.truth(self.ev(st.test, fr)):
            self.raise_("AssertionError")

    def x_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            e = fr.exc
            if e is None:
                for f in reversed(self.frames):
                    if f.exc is not None:
                        e = f.exc
                        break
            if e is None:
                self.raise_("RuntimeError", "No active exception to reraise")
            raise PyExc(e)
        v = self.ev(st.exc, fr)
        if st.cause is not None:
            c = self.ev(st.cause, fr)
        if isinstance(v, (Cls, Ext)):
            v = self.call(v, [], {})
        if st.cause is not None and isinstance(v, Obj):
            self.write(v, "__cause__", c)
        if isinstance(v, SV) and v.model is None:
            v = SV(v.t, EXC_MODEL)
        raise PyExc(v)

    def x_Try(self, st, fr):
        if st.finalbody:
            inner = ast.Try(st.body, st.handlers, st.orelse, [])
            inner.lineno = st.lineno
            try:
                if st.handlers or st.orelse:
                    self.x_Try(inner, fr)
                else:
                    self.exec_body(st.body, fr)
            except (PyExc, ReturnSig, BreakSig, ContinueSig, GenClose) as sig:
                saved = fr.exc
                if isinstance(sig, PyExc):
                    fr.exc = sig.value
                try:
                    self.exec_body(st.finalbody, fr)
                finally:
                    fr.exc = saved
                raise
            else:
                self.exec_body(st.finalbody, fr)
            return
        try:
            self.exec_body(st.body, fr)
        except PyExc as pe:
            e = pe.value
            for h in st.handlers:
                if h.type is not None:
                    c = self.ev(h.type, fr)
                    if not self.exc_matches(e, c):
                        continue
                saved = fr.exc
                fr.exc = e
                if h.name:
                    self.store(h.name, e, fr)
                try:
                    self.exec_body(h.body, fr)
                finally:
                    fr.exc = saved
                if h.name:
                    self.write(fr.env, h.name, UNSET)
                return
            raise
        self.exec_body(st.orelse, fr)

    def x_With(self, st, fr, is_async=False):
        self._with(st.items, st.body, fr, is_async)

    def x_AsyncWith(self, st, fr):
        self._with(st.items, st.body, fr, True)

    def _with(self, items, body, fr, is_async):
        if not items:
            return self.exec_body(body, fr)
        it = items[0]
        mgr = self.ev(it.context_expr, fr)
        en, ex = ("__aenter__", "__aexit__") if is_async else ("__enter__", "__exit__")
        enter, exit_ = self.getattr_(mgr, en), self.getattr_(mgr, ex)
        v = self.call(enter, [], {})
        if is_async:
            v = self.await_(v, fr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self._with(items[1:], body, fr, is_async)
        except PyExc as pe:
            e = pe.value
            saved = fr.exc
            fr.exc = e
            try:
                r = self.call(exit_, [self.type_of(e) or self.fresh("exctype"), e, None], {})
                if is_async:
                    r = self.await_(r, fr)
            finally:
                fr.exc = saved
            if not self.truth(r):
                raise
            return
        except (ReturnSig, BreakSig, ContinueSig, GenClose):
            r = self.call(exit_, [None, None, None], {})
            if is_async:
                self.await_(r, fr)
            raise
        r = self.call(exit_, [None, None, None], {})
        if is_async:
            self.await_(r, fr)

    # imports
    def x_Import(self, st, fr):
        for a in st.names:
            if getattr(st, "cimport", False):
                self.store(a.asname or a.name, Ext("cimport." + a.name), fr)
                continue
            if interpreted(a.name):
                m = self.world.module(a.name if a.asname else a.name.split(".")[0])
                self.world.module(a.name)
                self.store(a.asname or a.name.split(".")[0], m, fr)
                continue
            top = a.name if a.asname else a.name.split(".")[0]
            try:
                importlib.import_module(a.name)
                obj = importlib.import_module(top)
            except ImportError:
                self.raise_("ImportError", a.name)
            self.store(a.asname or top, Ext(top, obj), fr)

    def x_ImportFrom(self, st, fr):
        mod = st.module or ""
        if st.level:
            base = fr.module.name.split(".")
            if not fr.module.is_pkg:
                base = base[:-1]
            base = base[: len(base) - (st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if interpreted(mod):
            m = self.world.module(mod)
            if m is None:
                raise Unsupported(f"no module {mod}")
            for a in st.names:
                if a.name == "*":
                    al = m.ns.get("__all__")
                    names = list(al.items if isinstance(al, ListObj) else al) if al is not None and not isinstance(al, Poison) else [n for n in m.ns if not n.startswith("_")]
                    for n in names:
                        if n in m.ns:
                            self.store(n, m.ns[n], fr)
                    continue
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.world.module(mod + "." + a.name)
                    if v is None:
                        v = Poison(f"{mod} has no {a.name} (yet)")
                self.store(a.asname or a.name, v, fr)
            return
        if getattr(st, "cimport", False):
            for a in st.names:
                self.store(a.asname or a.name, Ext(f"cimport.{mod}.{a.name}"), fr)
            return
        try:
            pm = importlib.import_module(mod)
        except ImportError:
            self.raise_("ImportError", mod)
        for a in st.names:
            if a.name == "*":
                raise Unsupported("import *")
            try:
                r = getattr(pm, a.name)
            except AttributeError:
                try:
                    r = importlib.import_module(mod + "." + a.name)
                except ImportError:
                    self.raise_("ImportError", f"{mod}.{a.name}")
            self.store(a.asname or a.name, self.wrap_py(f"{mod}.{a.name}", r), fr)

    # definitions
    def x_FunctionDef(self, st, fr):
        decs = [self.ev(d, fr) for d in st.decorator_list]
        f = self.closure(st, fr)
        for d in reversed(decs):
            f = self.decorate(d, f)
            if f is UNSET:
                return  # @overload
        if fr.env is fr.module.ns:
            pass
        name = st.name
        if fr.cls is not None and getattr(fr, "is_class_body", False):
            name = self.mangle(name, fr)
        self.write(fr.env, name, f)

    x_AsyncFunctionDef = x_FunctionDef

    def closure(self, st, fr, name=None):
        a = st.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: (self.ev(d, fr) if d is not None else UNSET) for x, d in zip(a.kwonlyargs, a.kw_defaults)}
        nm = getattr(st, "name", "<lambda>")
        env = fr.env
        while getattr(env, "is_class", False):
            env = env.parent
        mod_level = fr.fn is None and not getattr(fr, "is_class_body", False)
        q = nm if mod_level else f"{fr.qualname.split(':')[-1]}.{nm}"
        if fr.fn is None and not getattr(fr, "is_class_body", False):
            env = None
        elif fr.fn is None and getattr(fr, "is_class_body", False) and env is not None and env.vars is fr.module.ns:
            env = None
        c = Closure(st, env, fr.module, fr.cls, defaults, kwd, q)
        c.full = f"{fr.module.name}:{q}"
        return c

    def decorate(self, d, f):
        if isinstance(d, Ext):
            p = d.path.split(".")[-1]
            if p == "overload":
                return UNSET
            if p in ("final", "abstractmethod", "runtime_checkable"):
                return f
            if p == "property" or d.pyobj is property:
                return Prop(f)
            if p == "cached_property" and d.pyobj is not None and d.pyobj.__module__ == "functools":
                return Prop(f, cached=True)
            if d.pyobj is classmethod:
                return ClassM(f)
            if d.pyobj is staticmethod:
                return StaticM(f)
        if isinstance(d, Native) and d.name == "prop_setter":
            return d.fn(self, [f], {})
        return self.call(d, [f], {})

    def x_ClassDef(self, st, fr):
        bases = [self.ev(b, fr) for b in st.bases]
        kws = {k.arg: self.ev(k.value, fr) for k in st.keywords}
        decs = [self.ev(d, fr) for d in st.decorator_list]
        typed_dict = any(isinstance(b, Ext) and b.path.endswith("TypedDict") or getattr(b, "typed_dict", False) for b in bases)
        bases = [self.base_cls(b) for b in bases]
        bases = [b for b in bases if b is not None]
        env = Env(fr.env)
        env.is_class = True
        cls = Cls(st.name, bases, env.vars, fr.module)
        cls.qualname = f"{fr.module.name}:{st.name}"
        cls.ctypes = dict(getattr(fr.module, "src", None).pxd.get(st.name, {})) if getattr(fr.module, "src", None) else {}
        if cls.ctypes:  # private C attributes are mangled like everything else
            for k in list(cls.ctypes):
                if k.startswith("__") and not k.endswith("__"):
                    cls.ctypes["_" + st.name.lstrip("_") + k] = cls.ctypes.pop(k)
        cls.node = st
        cls.typed_dict = typed_dict
        f2 = Frame(self, env, fr.module, cls, f"{st.name}" if fr.fn is None else f"{fr.qualname}.{st.name}", None)
        f2.is_class_body = True
        self.frames.append(f2)
        try:
            for s in st.body:
                try:
                    self.exec_stmt(s, f2)
                except Unsupported as e:
                    if not self.setup:
                        raise
                    for n in bound_names(s):
                        env.vars.setdefault(n, Poison(f"{cls.qualname}.{n}: {e}"))
        finally:
            self.frames.pop()
        for k, v in env.vars.items():
            if isinstance(v, Prop) and v.name is None:
                v.name = k
        mc = kws.get("metaclass")
        if mc is None:
            for b in bases:
                if isinstance(b, Cls) and b.metaclass is not None:
                    mc = b.metaclass
                    break
        cls.metaclass = mc if isinstance(mc, Cls) else None
        if cls.metaclass is not None and not self.setup:
            self.run_metaclass(cls)
        v = cls
        for d in reversed(decs):
            v = self.decorate(d, v)
        self.write(fr.env, st.name, v)

    def run_metaclass(self, cls):
        """a class of the caller's: the metaclass's own __new__ and __init__ (from source) see its namespace"""
        nw = self.class_attr(cls.metaclass, "__new__")
        attrs = self.new(DictObj({k: (True, v) for k, v in cls.ns.items()}))
        if isinstance(nw, (Closure, StaticM)):
            def type_new(r, a, k):
                d = a[-1]
                for n in list(cls.ns):
                    if n not in d.entries:
                        del cls.ns[n]
                for n, (p_, v) in d.entries.items():
                    cls.ns[n] = v
                for n, v in list(cls.ns.items()):
                    if isinstance(v, Obj):
                        sn = r.class_attr(v.cls, "__set_name__")
                        if sn is not UNSET:
                            r.call(r.bind(sn, v), [cls, n], {})
                return cls

            old = self.hooks.get("type_new")
            self.hooks["type_new"] = type_new
            try:
                self.call(nw.fn if isinstance(nw, StaticM) else nw, [cls.metaclass, cls.name, tuple(cls.bases), attrs], {})
            finally:
                self.hooks["type_new"] = old
        init = self.class_attr(cls.metaclass, "__init__")
        if isinstance(init, Closure):
            self.call(self.bind(init, cls), [cls.name, tuple(cls.bases), attrs], {})

    def base_cls(self, b):
        if isinstance(b, Cls):
            return b
        if isinstance(b, Native) and b.name == "weakref.ref":
            from . import models

            return models.WEAKREF_CLS
        if isinstance(b, Ext):
            mc = self.world.model_classes.get(b.path)
            if mc is None and b.pyobj is not None:
                mc = self.world.model_classes.get(id(b.pyobj))
            if mc is not None:
                return mc
            if isinstance(b.pyobj, type):
                return Ext(f"{b.pyobj.__module__}.{b.pyobj.__qualname__}", b.pyobj)
            o = getattr(b.pyobj, "__origin__", None)
            if isinstance(o, type):
                return self.base_cls(Ext(f"{o.__module__}.{o.__qualname__}", o))
            if b.path.startswith("typing."):
                return None
            return b
        raise Unsupported(f"base class {b!r}")

    # -- expressions -----------------------------------------------------------------------
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at {fr.qualname}:{getattr(e,'lineno',0)}")
        return m(e, fr)

    def attr_mangle(self, name, fr):
        return self.mangle(name, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        env = fr.env
        while getattr(env, "is_comp", False):
            env = env.parent
        if env is fr.env:
            self.store(e.target.id, v, fr)
        else:
            self.write(env, e.target.id, v)
        return v

    def e_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), self.attr_mangle(e.attr, fr))

    def e_Tuple(self, e, fr):
        xs = self.elts(e.elts, fr, opaque=True)
        return self.fresh("tuple") if xs is None else tuple(xs)

    def e_List(self, e, fr):
        return self.list(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return self.new(SetObj([(True, x) for x in self.elts(e.elts, fr)]))

    def elts(self, elts, fr, opaque=False):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                it = self.concrete_iter(v)
                if it is None:
                    if opaque and isinstance(v, SV) and v.model is None and z3.is_app(v.t) and v.t.decl().name() == "exc_args":
                        return None  # some tuple beginning with an exception's args
                    raise Unsupported(f"star-unpacking of {v!r}")
                out += it
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.new(DictObj())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(d, self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                self.setitem(d, kk, self.ev(v, fr))
        return d

    def dict_update(self, d, o):
        if isinstance(o, DictObj):
            ent = dict(d.entries)
            for k, (p, v) in o.entries.items():
                if is_true(p):
                    ent[k] = (True, v)
                elif k not in ent:
                    ent[k] = (p, v)
                else:
                    if self.branch(p):
                        ent[k] = (True, v)
            rest = d.rest
            if o.rest is not None:
                if rest is not None and not (z3.is_expr(rest) and rest.eq(o.rest)):
                    raise Unsupported("merge of two open dicts")
                rest = o.rest
            self.write(d, "#", (tuple(ent.items()), rest))
            return
        if hasattr(o, "as_dict"):
            return self.dict_update(d, o.as_dict(self))
        if isinstance(o, Obj):
            # a mapping class of the repository: keys() + __getitem__
            keys = self.call(self.getattr_(o, "keys"), [], {})
            it = self.concrete_iter(keys)
            if it is None:
                raise Unsupported(f"** of {o!r}")
            for k in it:
                self.setitem(d, k, self.getitem(o, k))
            return
        raise Unsupported(f"dict update from {o!r}")

    def e_IfExp(self, e, fr):
        return self.ev(e.body, fr) if self.truth(self.ev(e.test, fr)) else self.ev(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else SBool(z3.Not(t))
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return -v if isinstance(e.op, ast.USub) else ~v if isinstance(e.op, ast.Invert) else v
        if isinstance(v, SInt) and isinstance(e.op, ast.USub):
            return SInt(-v.t)
        if isinstance(v, SReal) and isinstance(e.op, ast.USub):
            return SReal(-v.t)
        dn = {ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(e.op)]
        if isinstance(v, Obj):
            return self.call(self.getattr_(v, dn), [], {})
        if isinstance(v, SV):
            return self.opaque_op(dn, [v])
        raise Unsupported(f"unary {dn} on {v!r}")

    def opaque_op(self, name, args):
        h = self.hooks.get("opaque_op")
        if h:
            return h(self, name, args)
        ts = [self.to_V(a) for a in args]
        return SV(z3.Function("op" + name, *([V] * len(ts)), V)(*ts))

    DUNDER = {
        "Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow",
        "BitOr": "or", "BitAnd": "and", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift", "MatMult": "matmul",
    }

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b, inplace=False):
        import operator as o

        num = (int, float)
        if isinstance(a, num) and isinstance(b, num) or (isinstance(a, (str, tuple, bytes)) and isinstance(b, type(a))) or (op == "Mult" and isinstance(a, (str, tuple)) and isinstance(b, int)):
            f = {"Add": o.add, "Sub": o.sub, "Mult": o.mul, "Div": o.truediv, "FloorDiv": o.floordiv, "Mod": o.mod, "Pow": o.pow, "BitOr": o.or_, "BitAnd": o.and_, "BitXor": o.xor, "LShift": o.lshift, "RShift": o.rshift}[op]
            try:
                return f(a, b)
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
        if isinstance(a, (SInt, SReal, SBool) + num) and isinstance(b, (SInt, SReal, SBool) + num) and op in ("Add", "Sub", "Mult"):
            x, y = num_term(a), num_term(b)
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}[op]()
            return SReal(r) if z3.is_real(r) else SInt(r)
        if isinstance(a, (SInt, SReal) + num) and isinstance(b, (SInt, SReal) + num) and op == "Div":
            x, y = z3.ToReal(num_term(a)) if z3.is_int(num_term(a)) else num_term(a), num_term(b)
            if self.branch(y == 0):
                self.raise_("ZeroDivisionError")
            return SReal(x / y)
        if op == "Add" and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return SStr(z3.Concat(str_term(a), str_term(b)))
        if op == "Add" and isinstance(a, ListObj) and isinstance(b, (ListObj, tuple)):
            if inplace and a.kind == "list":
                self.call(self.getattr_(a, "extend"), [b], {})
                return a
            if a.items is not None and (isinstance(b, tuple) or b.items is not None):
                return self.list(a.items + list(b if isinstance(b, tuple) else b.items), kind=a.kind)
            return self.list(seq=z3.Concat(self.seq_of(a), self.seq_of(b)), kind=a.kind)
        if op == "Add" and isinstance(a, tuple) and isinstance(b, ListObj):
            return self.list(seq=z3.Concat(self.seq_of(a), self.seq_of(b)), kind="tuple")
        if op == "Mod" and isinstance(a, str):
            return self.fresh("fmt", "str")
        if isinstance(a, SetObj) and isinstance(b, SetObj) and op in ("BitAnd", "Sub", "BitOr"):
            return self.set_op(op, a, b)
        if isinstance(a, (Cls, Ext)) and isinstance(b, (Cls, Ext)) and op == "BitOr":
            return (a, b)
        d = self.DUNDER[op]
        if isinstance(a, Obj):
            if inplace:
                m = self.class_attr(a.cls, f"__i{d}__")
                if m is not UNSET:
                    return self.call(self.bind(m, a), [b], {})
            m = self.class_attr(a.cls, f"__{d}__")
            if m is not UNSET:
                return self.call(self.bind(m, a), [b], {})
        if isinstance(b, Obj):
            m = self.class_attr(b.cls, f"__r{d}__")
            if m is not UNSET:
                return self.call(self.bind(m, b), [a], {})
        if isinstance(a, SV) or isinstance(b, SV):
            return self.opaque_op(f"__{d}__", [a, b])
        raise Unsupported(f"binop {op} {a!r} {b!r} at {self.where()}")

    def set_op(self, op, a, b):
        def find(s, x):
            ps = [p for p, y in s.items if is_true(self.eq(x, y))]
            return ps[0] if ps else False

        out = []
        for p, x in a.items:
            q = find(b, x)
            if op == "BitAnd":
                r = zand(p, q)
            elif op == "Sub":
                r = zand(p, znot(q))
            else:
                r = zor(p, q)
            if not is_false(r):
                out.append((r, x))
        if op == "BitOr":
            for q, x in b.items:
                if is_false(find(a, x)) and not any(is_true(self.eq(x, y)) for _, y in a.items):
                    out.append((q, x))
        return self.new(SetObj(out))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        acc = None
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            r = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return r
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return r
            left = right
        return acc

    def compare(self, op, a, b):
        def wrap(t):
            return t if isinstance(t, bool) else (SBool(t) if not (is_true(t) or is_false(t)) else is_true(t))

        if op == "Is":
            return wrap(self.same(a, b))
        if op == "IsNot":
            return wrap(znot(self.same(a, b)))
        if "opaque_compare" in self.hooks and op not in ("In", "NotIn") and not isinstance(a, Obj) and not isinstance(b, Obj) and (isinstance(a, SV) or isinstance(b, SV)):
            r = self.hooks["opaque_compare"](self, {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__", "Eq": "__eq__", "NotEq": "__ne__"}[op], [a, b])
            if r is not UNSET:
                return r
        if op in ("Eq", "NotEq"):
            if op == "NotEq":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Obj):
                        m = self.class_attr(x.cls, "__ne__")
                        if m is not UNSET:
                            return self.call(self.bind(m, x), [y], {})
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m = self.class_attr(x.cls, "__eq__")
                    if m is not UNSET:
                        r = self.call(self.bind(m, x), [y], {})
                        return r if op == "Eq" else wrap(znot(self.truth_term(r)))
            t = self.eq(a, b)
            return wrap(t if op == "Eq" else znot(t))
        if op in ("In", "NotIn"):
            t = self.contains(b, a)
            return wrap(t if op == "In" else znot(t))
        num = (int, float, SInt, SReal, SBool)
        if isinstance(a, num) and isinstance(b, num):
            x, y = num_term(a), num_term(b)
            r = {"Lt": lambda: x < y, "Gt": lambda: x > y, "LtE": lambda: x <= y, "GtE": lambda: x >= y}[op]()
            return wrap(r)
        if isinstance(a, (str, tuple)) and isinstance(b, type(a)) and all(isinstance(z, (str, int, float)) for z in (list(a) + list(b))):
            return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b}[op]
        dn = {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}
        rf = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}
        if isinstance(a, Obj):
            m = self.class_attr(a.cls, dn[op])
            if m is not UNSET:
                return self.call(self.bind(m, a), [b], {})
        if isinstance(b, Obj):
            m = self.class_attr(b.cls, dn[rf[op]])
            if m is not UNSET:
                return self.call(self.bind(m, b), [a], {})
        if isinstance(a, SV) and isinstance(b, (int, float, SInt)) or isinstance(b, SV) and isinstance(a, (int, float, SInt)):
            # comparison of an opaque value with a number: numbers compare numerically
            o, swap = (a, False) if isinstance(a, SV) else (b, True)
            k = self.choose([V.is_intv(o.t), V.is_boolv(o.t), V.is_fltv(o.t), z3.Not(z3.Or(V.is_intv(o.t), V.is_boolv(o.t), V.is_fltv(o.t)))])
            if k < 3:
                n = SInt(V.i(o.t)) if k == 0 else SInt(z3.If(V.b(o.t), 1, 0)) if k == 1 else SReal(V.r(o.t))
                return self.compare(op, n if not swap else a, b if not swap else n)
            if self.branch(V.is_none(o.t)):
                self.raise_("TypeError", "not orderable")
        if isinstance(a, SV) or isinstance(b, SV):
            ta, tb = self.to_V(a), self.to_V(b)
            if op == "Lt":
                return SBool(f_lt(ta, tb))
            if op == "Gt":
                return SBool(f_lt(tb, ta))
            if op == "LtE":
                return SBool(z3.Not(f_lt(tb, ta)))
            return SBool(z3.Not(f_lt(ta, tb)))
        for x, y, o in ((a, b, op), (b, a, rf[op])):
            if hasattr(x, "order"):
                return x.order(self, o, y)
        raise Unsupported(f"compare {op} {a!r} {b!r} at {self.where()}")

    def contains(self, c, x):
        if isinstance(c, (ListObj, DictObj)) and getattr(c, "g", None) is not None:
            return c.g.contains(self, x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, tuple) or (isinstance(c, ListObj) and c.items is not None):
            items = c if isinstance(c, tuple) else c.items
            ts = [self.eq(x, y) for y in items]
            if any(is_true(t) for t in ts):
                return True
            ts = [zbool(t) for t in ts if not is_false(t)]
            return z3.Or(*ts) if ts else False
        if isinstance(c, ListObj):
            return z3.Contains(c.seq, z3.Unit(self.to_V(x)))
        if isinstance(c, DictObj):
            if isinstance(x, SBool):
                x = self.branch(x.t)
            if isinstance(x, (str, int, tuple, bytes)) or x is None:
                if x in c.entries:
                    return c.entries[x][0]
            else:
                for k, (p, _) in c.entries.items():
                    s = self.same(k, x)
                    if is_true(s):
                        return p
                for k, (p, _) in c.entries.items():
                    if not is_false(self.eq(k, x)):
                        if self.branch(zand(p, self.eq(k, x))):
                            return True
            if c.rest is not None:
                h = self.hooks.get("rest_contains")
                if h:
                    return h(self, c, x)
                raise Unsupported(f"membership of {x!r} in open dict")
            return False
        if isinstance(c, SetObj):
            ps = []
            for p, y in c.items:
                t = zand(p, self.eq(x, y))
                if is_true(t):
                    return True
                if not is_false(t):
                    ps.append(zbool(t))
            return z3.Or(*ps) if ps else False
        if hasattr(c, "contains"):
            return c.contains(self, x)
        if isinstance(c, Obj):
            m = self.class_attr(c.cls, "__contains__")
            if m is not UNSET:
                return self.truth_term(self.call(self.bind(m, c), [x], {}))
            if c.fields.get("#dict", UNSET) is not UNSET:
                return self.contains(c.fields["#dict"], x)
        if isinstance(c, (SStr, str)) and isinstance(x, (str, SStr)):
            return z3.Contains(str_term(c), str_term(x))
        if isinstance(c, SV) and c.model is not None and hasattr(c.model, "contains"):
            return c.model.contains(self, c, x)
        if isinstance(c, SV):
            return z3.Function("op_contains", V, V, z3.BoolSort())(c.t, self.to_V(x))
        it = self.concrete_iter(c)
        if it is not None:
            return self.contains(tuple(it), x)
        raise Unsupported(f"contains on {c!r} at {self.where()}")

    def e_JoinedStr(self, e, fr):
        parts = [self.ev(v, fr) for v in e.values]
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return self.fresh("fstr", "str")

    def e_FormattedValue(self, e, fr):
        try:
            v = self.ev(e.value, fr)
        except Unsupported:
            return self.fresh("fmt", "str")
        if isinstance(v, (str, int)) and not isinstance(v, bool) and e.format_spec is None:
            return str(v)
        return self.fresh("fmt", "str")

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(o, (Cls, Ext)) and not (isinstance(o, Ext) and isinstance(o.pyobj, (dict, list, tuple))):
            if isinstance(o, Cls) and o.metaclass is not None and self.class_attr(o.metaclass, "__getitem__") is not UNSET:
                pass
            else:
                return o  # typing subscription
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else None
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else None
            st = self.ev(e.slice.step, fr) if e.slice.step else None
            return self.slice(o, lo, hi, st)
        return self.getitem(o, self.ev(e.slice, fr))

    def slice(self, o, lo, hi, st):
        if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return o[lo:hi:st]
        if isinstance(o, ListObj) and o.items is not None and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
            return self.list(o.items[lo:hi:st])
        if isinstance(o, (SStr, str)):
            return self.fresh("slice", "str")
        if isinstance(o, ListObj) and st is None and (lo is None or isinstance(lo, int) and lo >= 0) and (hi is None or isinstance(hi, (int, SInt))):
            s = self.seq_of(o)
            n = z3.Length(s)
            lo = lo or 0
            h = n if hi is None else num_term(hi)
            if z3.is_expr(h) or (isinstance(h, int) and h >= 0):
                h = z3.If(h > n, n, z3.If(h < 0, z3.If(n + h < 0, 0, n + h), h))
                return self.list(seq=z3.SubSeq(s, lo, h - lo))
        raise Unsupported(f"slice of {o!r}")

    def getitem(self, o, k):
        if isinstance(o, (ListObj, DictObj)) and getattr(o, "g", None) is not None:
            return o.g.getitem(self, k)
        if isinstance(o, tuple) or (isinstance(o, ListObj) and o.items is not None):
            items = o if isinstance(o, tuple) else o.items
            if isinstance(k, int):
                if -len(items) <= k < len(items):
                    return items[k]
                self.raise_("IndexError")
            raise Unsupported("symbolic index")
        if isinstance(o, ListObj):
            i = num_term(k)
            n = z3.Length(o.seq)
            idx = i if (z3.is_expr(i) or i >= 0) else n + i
            if self.branch(z3.And(idx >= 0, idx < n)):
                return self.from_V(o.seq[idx])
            self.raise_("IndexError")
        if isinstance(o, str) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                self.raise_("IndexError")
        if isinstance(o, DictObj):
            if isinstance(k, SBool):
                k = self.branch(k.t)
            c = self.contains(o, k)
            if self.branch(c):
                if (isinstance(k, (str, int, tuple, bytes)) or k is None) and k in o.entries:
                    return o.entries[k][1]
                for kk, (p, v) in o.entries.items():
                    if is_true(self.same(kk, k)) or self.holds(zbool(self.eq(kk, k))):
                        return v
                h = self.hooks.get("rest_get")
                if h:
                    return h(self, o, k)
                raise Unsupported("get from open dict")
            df = getattr(o, "default_factory", None)
            if df is not None:
                v = self.call(df, [], {})
                self.setitem(o, k, v)
                return v
            raise PyExc(self.mk_exc("KeyError", k))
        if hasattr(o, "getitem"):
            return o.getitem(self, k)
        if isinstance(o, Obj):
            return self.call(self.getattr_(o, "__getitem__"), [k], {})
        if isinstance(o, Cls) and o.metaclass is not None:
            m = self.class_attr(o.metaclass, "__getitem__")
            if m is not UNSET:
                return self.call(self.bind(m, o), [k], {})
        if isinstance(o, SV):
            if o.model is not None and hasattr(o.model, "getitem"):
                return o.model.getitem(self, o, k)
            return self.opaque_op("__getitem__", [o, k])
        if isinstance(o, Ext) and isinstance(o.pyobj, (dict, tuple, list)) and isinstance(k, (int, str)):
            try:
                return self.wrap_py(f"{o.path}[{k}]", o.pyobj[k])
            except (KeyError, IndexError) as x:
                self.raise_(type(x).__name__)
        raise Unsupported(f"getitem {o!r}[{k!r}] at {self.where()}")

    def setitem(self, o, k, v):
        if isinstance(o, DictObj) and (self.ghost_loops or getattr(o, "g", None) is not None) and coll.setitem_hook(self, o, k, v):
            return
        if isinstance(o, DictObj):
            if isinstance(k, SBool):
                k = self.branch(k.t)
            if isinstance(k, (SInt, SBool, SStr)) and not any(is_true(self.same(kk, k)) for kk in o.entries) and any(not is_false(self.eq(kk, k)) for kk in o.entries):
                raise Unsupported("aliasing symbolic dict key")
            ent = dict(o.entries)
            for kk in list(ent):
                if kk is not k and not (isinstance(kk, (str, int)) and isinstance(k, (str, int))):
                    t = self.eq(kk, k)
                    if is_false(t):
                        continue
                    if self.branch(t):
                        ent[kk] = (True, v)
                        self.write(o, "#", (tuple(ent.items()), o.rest))
                        return
            ent[k] = (True, v)
            self.write(o, "#", (tuple(ent.items()), o.rest))
            return
        if isinstance(o, ListObj) and o.items is not None and isinstance(k, int):
            it = list(o.items)
            it[k] = v
            self.write(o, "#", (tuple(it), None))
            return
        if hasattr(o, "setitem"):
            return o.setitem(self, k, v)
        if isinstance(o, Obj):
            return self.call(self.getattr_(o, "__setitem__"), [k, v], {})
        h = self.hooks.get("ext_setitem")
        if h and isinstance(o, Ext) and h(self, o, k, v):
            return
        raise Unsupported(f"setitem on {o!r}")

    def e_Lambda(self, e, fr):
        return self.closure(e, fr)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Await(self, e, fr):
        return self.await_(self.ev(e.value, fr), fr)

    def await_(self, v, fr=None):
        if isinstance(v, Coro):
            if v.started:
                self.raise_("RuntimeError", "cannot reuse already awaited coroutine")
            v.started = True
            return v.run()
        if hasattr(v, "await_"):
            return v.await_(self)
        if isinstance(v, SV):
            if v.model is not None and hasattr(v.model, "await_"):
                return v.model.await_(self, v)
            h = self.hooks.get("await")
            if h:
                return h(self, v)
            return self.default_await(v)
        if isinstance(v, Obj):
            m = self.class_attr(v.cls, "__await__")
            if m is not UNSET:
                r = self.call(self.bind(m, v), [], {})
                if isinstance(r, Coro):
                    return self.await_(r)
                if isinstance(r, Gen):
                    return self.run_gen(r, lambda y: self.raise_unsupported("yield inside __await__"))
                if isinstance(r, AwaitIter):
                    return self.await_(r.target)
                return r
        raise Unsupported(f"await {v!r} at {self.where()}")

    def raise_unsupported(self, why):
        raise Unsupported(why)

    def default_await(self, v):
        """await of something opaque: anything may run meanwhile (contract's rely), then a result or an exception"""
        self.event("await", v)
        self.rely()
        k = self.fork("await returns", "await raises")
        if k == 0:
            r = self.fresh("awaited")
            self.event("await-ret", v, r)
            return r
        e = self.fresh_exc("await_exc")
        self.event("await-exc", v, e)
        raise PyExc(e)

    def rely(self):
        h = getattr(self.v.contract, "rely", None)
        if h:
            h(self)

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        return f.on_yield(v)

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        return self.yield_from(v, fr)

    def yield_from(self, v, fr):
        if isinstance(v, Gen):
            return self.run_gen(v, fr.on_yield)
        if isinstance(v, AwaitIter):
            return self.await_(v.target)
        if isinstance(v, Obj):
            it = self.call(self.getattr_(v, "__iter__"), [], {})
            if it is not v:
                return self.yield_from(it, fr)
        fake = ast.For(ast.Name("__yf__", ast.Store()), None, [], [])
        env2 = Env(fr.env)
        f2 = Frame(self, env2, fr.module, fr.cls, fr.qualname, None)
        f2.on_yield = fr.on_yield
        self.iterate(fake, v, lambda x: fr.on_yield(x), fr, is_async=False)
        return None

    def run_gen(self, g, on_yield):
        if g.started:
            raise Unsupported("generator consumed twice")
        g.started = True
        return g.run(on_yield)

    # comprehensions ------------------------------------------------------------------
    def comp(self, e, fr, emit, out=None):
        env = Env(fr.env)
        env.is_comp = True
        f2 = Frame(self, env, fr.module, fr.cls, fr.qualname, fr.fn)
        f2.on_yield = fr.on_yield
        f2.lineno = e.lineno
        f2.comp = True

        def level(i):
            if i == len(e.generators):
                return emit(f2)
            g = e.generators[i]
            it = self.ev(g.iter, f2) if i else first

            def body(x):
                self.assign_comp(g.target, x, f2)
                for c in g.ifs:
                    if not self.truth(self.ev(c, f2)):
                        return
                level(i + 1)

            fake = ast.For(g.target, None, [], [])
            fake.lineno, fake.col_offset = e.lineno, getattr(e, "col_offset", 0) * 10 + i
            self.iterate(fake, it, body, f2, is_async=bool(g.is_async))

        first = self.ev(e.generators[0].iter, fr)
        h = self.hooks.get("keyed_comp")
        if h:
            r = h(self, e, fr, f2, first, {"ListComp": "list", "SetComp": "set", "DictComp": "dict"}[type(e).__name__])
            if r is not UNSET:
                return r
        self.consumers.append((out, f2))
        try:
            level(0)
        finally:
            self.consumers.pop()
        return out

    def assign_comp(self, t, v, f2):
        if isinstance(t, ast.Name):
            self.write(f2.env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e, x in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign_comp(e, x, f2)
        else:
            raise Unsupported("comprehension target")

    def e_ListComp(self, e, fr):
        out = self.list([])
        return self.comp(e, fr, lambda f2: self.list_append(out, self.ev(e.elt, f2)), out)

    def e_SetComp(self, e, fr):
        out = self.new(SetObj())
        from . import models

        r = self.comp(e, fr, lambda f2: models.set_add(self, out, self.ev(e.elt, f2)))
        return out if r is None else r

    def e_DictComp(self, e, fr):
        h = self.hooks.get("dictcomp")
        if h:
            r = h(self, e, fr)
            if r is not UNSET:
                return r
        out = self.new(DictObj())

        def emit(f2):
            k = self.ev(e.key, f2)
            self.setitem(out, k, self.ev(e.value, f2))

        return self.comp(e, fr, emit, out)

    def e_GeneratorExp(self, e, fr):
        # CPython evaluates the first iterable eagerly
        first = self.ev(e.generators[0].iter, fr)
        lineno = fr.lineno

        def run(on_yield):
            env = Env(fr.env)
            env.is_comp = True
            f2 = Frame(self, env, fr.module, fr.cls, fr.qualname, fr.fn)
            f2.lineno = lineno
            f2.on_yield = fr.on_yield

            def level(i):
                if i == len(e.generators):
                    return on_yield(self.ev(e.elt, f2))
                g = e.generators[i]
                it = first if i == 0 else self.ev(g.iter, f2)

                def body(x):
                    self.assign_comp(g.target, x, f2)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, f2)):
                            return
                    level(i + 1)

                fake = ast.For(g.target, None, [], [])
                fake.lineno, fake.col_offset = e.lineno, getattr(e, "col_offset", 0) * 10 + i
                self.iterate(fake, it, body, f2, is_async=bool(g.is_async))

            level(0)

        return Gen(run, "<genexpr>", any(g.is_async for g in e.generators))

    def list_append(self, l, v):
        if (self.ghost_loops or getattr(l, "g", None) is not None) and coll.append_hook(self, l, v):
            return
        if l.items is not None:
            self.write(l, "#", (tuple(l.items) + (v,), None))
        else:
            self.write(l, "#", (None, z3.Concat(l.seq, z3.Unit(self.to_V(v)))))

    # -- loops ------------------------------------------------------------------------------
    def concrete_iter(self, v):
        """list of elements if the iterable is of known length, else None (a generator's elements are then in .g, if they are a family's)"""
        if getattr(v, "g", None) is not None or isinstance(v, (coll.GColl, coll.GDict)):
            return None
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListObj):
            return list(v.items) if v.items is not None else None
        if isinstance(v, str):
            return list(v)
        if isinstance(v, SetObj):
            out = []
            for p, x in v.items:
                if is_true(p) or (not is_false(p) and self.branch(p)):
                    out.append(x)
            return out
        if isinstance(v, DictObj):
            if v.rest is not None:
                return None
            out = []
            for k, (p, x) in v.entries.items():
                if is_true(p) or (not is_false(p) and self.branch(p)):
                    out.append(k)
            return out
        if isinstance(v, Gen) and not v.is_async:
            l = self.list([])
            mark, base = len(self.cutlog), len(self.cutstack)

            def collect(x):
                for info in self.cutstack[base:]:
                    if not info.collects:
                        info.collects = True
                        self.v.changed = True
                self.list_append(l, x)

            self.consumers.append((l, None))
            try:
                self.run_gen(v, collect)
            finally:
                self.consumers.pop()
            if any(info.collects for info in self.cutlog[mark:]):
                raise Unsupported(f"a generator of unknown length is collected at {self.where()}")
            if getattr(l, "g", None) is not None:
                v.g = l.g
                return None
            return l.items
        if hasattr(v, "concrete_iter"):
            return v.concrete_iter(self)
        if isinstance(v, Ext) and isinstance(v.pyobj, (tuple, list, set, frozenset)):
            return [self.wrap_py(f"{v.path}[{i}]", x) for i, x in enumerate(v.pyobj)]
        return None

    def x_For(self, st, fr, is_async=False):
        it = self.ev(st.iter, fr)

        def body(x):
            self.assign(st.target, x, fr)
            try:
                self.exec_body(st.body, fr)
            except ContinueSig:
                pass

        try:
            self.iterate(st, it, body, fr, is_async)
        except BreakSig:
            return
        self.exec_body(st.orelse, fr)

    def x_AsyncFor(self, st, fr):
        self.x_For(st, fr, True)

    def iterate(self, st, it, body, fr, is_async):
        """run body(x) for every element; BreakSig and friends propagate"""
        if hasattr(it, "iterated"):
            it = it.iterated(self, is_async)
        if isinstance(it, Gen):
            if it.is_async != is_async and it.is_async:
                self.raise_("TypeError", "async generator in sync for")

            def on_yield(x):
                try:
                    body(x)
                except (BreakSig, ReturnSig, PyExc) as s:
                    # the consumer leaves: the generator is closed at its yield point
                    raise GenClose(s)
                return None

            if getattr(it, "g", None) is not None:
                return coll.iterate(self, st, it.g, body, fr, is_async)
            self.consumers.append((None, fr))
            try:
                self.run_gen(it, on_yield)
            except GenClose as g:
                raise g.inner
            finally:
                self.consumers.pop()
            return
        g = coll.ghost_of(it)
        if g is not None:
            return coll.iterate(self, st, g, body, fr, is_async)
        if not is_async:
            c = self.concrete_iter(it)
            if c is not None:
                for x in c:
                    body(x)
                return
        if hasattr(it, "iterator"):
            cur = it.iterator(self)
            return self.cut_loop(st, cur, body, fr)
        if isinstance(it, ListObj) and not is_async:
            cur = SeqCursor(self, it.seq, it.elem)
            return self.cut_loop(st, cur, body, fr)
        if isinstance(it, SV) and it.model is not None and hasattr(it.model, "iterator"):
            cur = it.model.iterator(self, it, is_async)
            return self.cut_loop(st, cur, body, fr)
        if isinstance(it, Obj):
            h = self.hooks.get("iter_obj")
            if h:
                cur = h(self, it, is_async)
                if cur is not None:
                    return self.cut_loop(st, cur, body, fr)
            m = self.class_attr(it.cls, "__aiter__" if is_async else "__iter__")
            if m is not UNSET:
                r = self.call(self.bind(m, it), [], {})
                if r is not it:
                    return self.iterate(st, r, body, fr, is_async)
                if is_async and self.hooks.get("delegates"):
                    n, t = self.nserial, len(self.trace)
                    nx = self.call(self.getattr_(it, "__anext__"), [], {})
                    if isinstance(nx, GenNext) and self.nserial == n and len(self.trace) == t:
                        # every step of the object is a step of one and the same generator
                        return self.iterate(st, nx.gen, body, fr, is_async)
                cur = ObjCursor(self, it, is_async)
                return self.cut_loop(st, cur, body, fr)
            if not is_async and it.fields.get("#dict", UNSET) is not UNSET:
                return self.iterate(st, it.fields["#dict"], body, fr, False)
        raise Unsupported(f"iteration over {it!r} at {self.where()}")

    def x_While(self, st, fr):
        def body(_):
            try:
                self.exec_body(st.body, fr)
            except ContinueSig:
                pass

        # loops whose condition is concrete are unrolled (bounded by 64 to catch runaways)
        try:
            self.cut_loop(st, WhileCursor(self, st, fr), body, fr)
        except BreakSig:
            return
        self.exec_body(st.orelse, fr)

    def cut_loop(self, st, cur, body, fr):
        """invariant-cut loop. `cur`: cursor with begin/havoc/step(bool more)/element"""
        if self.setup:
            raise Unsupported("loop at import")
        key = (fr.qualname, getattr(st, "lineno", 0), getattr(st, "col_offset", 0), len(self.frames), tuple(self.dec), self.nch)
        info = self.v.loops.get(key)
        if info is None:
            info = self.v.loops[key] = LoopInfo()
            self.v.changed = True
        loop_id = f"{fr.qualname}@loop"
        serial0 = self.nserial
        cur.begin(self)
        self.cutstack.append(info)
        try:
            return self.cut_loop2(st, cur, body, fr, info, key, loop_id, serial0)
        finally:
            self.cutstack.pop()
            self.cutlog.append(info)

    def cut_loop2(self, st, cur, body, fr, info, key, loop_id, serial0):
        # candidates
        def cands():
            out = list(cur.candidates(self))
            c = getattr(self.v.contract, "invariants", None)
            if c:
                out += list(c(self, loop_id, st, fr, cur))
            return out

        entry_vals = {}
        for name, f in cands():
            if name in info.dropped:
                continue
            t = self._safe(f)
            if t is None or not self.holds(t):
                info.dropped.add(name)
                self.v.changed = True
        # auto candidate: location keeps its entry value
        locs = {}
        for lk in sorted(info.havoc, key=str):
            o, k = self.loc_of(lk, fr)
            locs[lk] = (o, k, o.locs().get(k, UNSET))
        # havoc
        for lk, (o, k, old) in locs.items():
            o.setloc(k, self.havoc_value(old, info.havoc[lk], f"h_{k}", lk, info, serial0, o, k))
        if self.loopstack:
            for lk, (o, k, old) in locs.items():
                self.mutations.append((o, k))
        cur.havoc(self)
        for lk, (o, k, old) in locs.items():
            nm = f"unchanged:{lk}"
            if nm in info.dropped:
                continue
            t = self.val_eq(o.locs().get(k, UNSET), old)
            if t is None or is_false(t):
                info.dropped.add(nm)
                self.v.changed = True
                continue
            self.assume(zbool(t))
        live = []
        for name, f in cands():
            if name in info.dropped:
                continue
            t = self._safe(f)
            if t is None:
                info.dropped.add(name)
                self.v.changed = True
                continue
            self.assume(zbool(t))
            live.append((name, f))
        if info.events:
            self.trace.append(("loop", loop_id, cur))
        # one arbitrary iteration, or exit
        mark, tmark0 = len(self.mutations), len(self.trace)
        self.loopstack.append((loop_id, tmark0))
        try:
            more = cur.more(self)
        finally:
            self.loopstack.pop()
        if not more:
            cur.finish(self)
            hook = getattr(self.v.contract, "loop_exit", None)
            if hook:
                hook(self, loop_id, st, fr, cur)
            return
        x = cur.element(self)
        tmark = len(self.trace)
        self.loopstack.append((loop_id, tmark))
        try:
            hook = getattr(self.v.contract, "iter_begin", None)
            if hook:
                hook(self, loop_id, st, fr, cur, x)
            body(x)
        finally:
            self.loopstack.pop()
        cur.advance(self)
        hook = getattr(self.v.contract, "iter_end", None)
        if hook:
            hook(self, loop_id, st, fr, cur, x, self.trace[tmark:])
        if len(self.trace) > tmark0 and not info.events:
            info.events = True
            self.v.changed = True
        # back edge: write set
        for o, k in self.mutations[mark:]:
            lk = self.loc_key(o, k, serial0, fr)
            if lk is None:
                continue
            now = o.locs().get(k, UNSET)
            kinds = info.havoc.setdefault(lk, set())
            kd = self.kind_of(now, serial0)
            if lk not in locs:
                self.v.changed = True
            if kd not in kinds:
                kinds.add(kd)
                self.v.changed = True
        if not all(lk in locs for lk in info.havoc):
            self.v.changed = True
            raise PathEnd()
        for lk, (o, k, old) in locs.items():
            nm = f"unchanged:{lk}"
            if nm not in info.dropped:
                t = self.val_eq(o.locs().get(k, UNSET), old)
                if t is None or not self.holds(t):
                    info.dropped.add(nm)
                    self.v.changed = True
        for name, f in live:
            if name in info.dropped:
                continue
            t = self._safe(f)
            if t is None or not self.holds(t):
                info.dropped.add(name)
                self.v.changed = True
        self.v.obl[(tuple(self.dec), self.nch, "loop", key)] = Obligation(
            f"loop invariant preserved ({loop_id}: {len(live)} candidates kept)", "proved", list(self.labels), where=self.where()
        )
        raise PathEnd()

    def _safe(self, f):
        try:
            return f()
        except (KeyError, AttributeError, z3.Z3Exception, TypeError):
            return None

    def loc_key(self, o, k, serial0, fr):
        """stable name of a location that existed before the loop; None for newer objects"""
        if isinstance(o, Env):
            depth, e = 0, fr.env
            while e is not None and e is not o:
                e, depth = e.parent, depth + 1
            if e is o:
                return ("env", depth, k)
            for i, f in enumerate(self.frames):
                e, d = f.env, 0
                while e is not None:
                    if e is o:
                        return ("frame", i, d, k)
                    e, d = e.parent, d + 1
            return None
        s = getattr(o, "serial", None)
        if s is None:
            if getattr(o, "shared", False):
                raise Unsupported(f"loop writes to module-level object {o!r}")
            return None
        if s > serial0:
            return None
        return ("obj", s, k)

    def loc_of(self, lk, fr):
        if lk[0] == "env":
            e = fr.env
            for _ in range(lk[1]):
                e = e.parent
            return e, lk[2]
        if lk[0] == "frame":
            e = self.frames[lk[1]].env
            for _ in range(lk[2]):
                e = e.parent
            return e, lk[3]
        return self.obj_by_serial[lk[1]], lk[2]

    module_objs = {}  # by id; they live as long as the world

    def kind_of(self, v, serial0):
        if v is UNSET:
            return "unset"
        if v is None:
            return ("const", None)
        if isinstance(v, (bool, SBool)):
            return "bool"
        if isinstance(v, (int, SInt)):
            return "int"
        if isinstance(v, (float, SReal)):
            return "real"
        if isinstance(v, (str,)):
            return ("const", v)
        if isinstance(v, SStr):
            return "str"
        if isinstance(v, SV):
            return "V"
        if isinstance(v, tuple) and len(v) == 2 and (v[0] is None or isinstance(v[0], tuple)) and (v[1] is None or z3.is_expr(v[1])):
            return "liststate"
        if isinstance(v, Heap) and v.serial is not None:
            return ("obj", v.serial) if v.serial <= serial0 else ("newobj", type(v).__name__)
        if z3.is_expr(v):
            return ("z3", str(v.sort()))
        if isinstance(v, tuple):
            return ("tuple",) + tuple(self.kind_of(x, serial0) for x in v)
        if isinstance(v, Coro):
            return "coro"
        if isinstance(v, Obj):  # of module level
            self.module_objs[id(v)] = v
            return ("shared", id(v))
        return ("meta", type(v).__name__)

    def havoc_value(self, old, kinds, nm, lk, info, serial0, o, k):
        ks = set(kinds) | {self.kind_of(old, serial0)}
        if hasattr(o, "havoc_loc"):
            return o.havoc_loc(self, k, old)
        if "liststate" in ks:
            return (None, self.fresh(nm, "seq"))
        if len(ks) == 1 or (ks - {"unset"} and len(ks - {"unset"}) == 1):
            # a variable unset before the loop is treated as set after an iteration only on paths that set it; reading it
            # first would have been caught on the first iteration
            kd = next(iter(ks - {"unset"} or ks))
            if len(ks) == 2 and self.hooks.get("unset_dead"):
                return self.dead(nm)
            if len(ks) == 2:
                i = self.fork(f"{nm} unset", f"{nm} set")
                if i == 0:
                    return UNSET
            if kd == "unset":
                return UNSET
            if kd in ("int", "bool", "V", "str", "real"):
                return self.fresh(nm, kd)
            if isinstance(kd, tuple) and kd[0] == "const":
                return kd[1]
            if isinstance(kd, tuple) and kd[0] == "obj":
                return self.obj_by_serial[kd[1]]
            if isinstance(kd, tuple) and kd[0] == "shared":
                return self.module_objs[kd[1]]
            if isinstance(kd, tuple) and kd[0] == "z3":
                return z3.Const(self.fresh_name(nm), old.sort())
            if isinstance(kd, tuple) and kd[0] == "tuple":
                return tuple(self.havoc_value(UNSET, {x}, nm, lk, info, serial0, None, k) for x in kd[1:])
            if isinstance(kd, tuple) and kd[0] == "newobj":
                return self.dead(nm)
            if kd == "coro" or (isinstance(kd, tuple) and kd[0] == "meta"):
                return self.dead(nm)
        if ks & {"int", "bool", "V", "str"} or all(isinstance(x, tuple) and x[0] == "const" or x == "unset" for x in ks):
            ok = all(x in ("int", "bool", "V", "str", "real", "unset") or (isinstance(x, tuple) and x[0] in ("const", "obj", "shared")) for x in ks)
            if ok:
                return self.fresh(nm, "V")
        opts = sorted(ks, key=str)
        i = self.fork(*[f"{nm}:{x}" for x in opts])
        return self.havoc_value(UNSET, {opts[i]}, nm, lk, info, serial0, None, k) if opts[i] != "unset" else UNSET

    def dead(self, nm):
        return Poison(f"value of {nm} from an earlier iteration")

    def val_eq(self, a, b):
        if a is b:
            return True
        if a is UNSET or b is UNSET or isinstance(a, Poison) or isinstance(b, Poison):
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2:
            try:
                sa = a[1] if a[1] is not None else self.seq_of(tuple(a[0]))
                sb = b[1] if b[1] is not None else self.seq_of(tuple(b[0]))
                if z3.is_expr(sa) and z3.is_expr(sb) and sa.sort() == sb.sort():
                    return sa == sb
            except Exception:
                return None
        if z3.is_expr(a) and z3.is_expr(b):
            return a == b if a.sort() == b.sort() else None
        if z3.is_expr(a) or z3.is_expr(b):
            return None
        try:
            return self.to_V(a) == self.to_V(b)
        except Exception:
            return None

    # -- calls --------------------------------------------------------------------------------
    def e_Call(self, e, fr):
        fr.lineno = getattr(e, "lineno", fr.lineno)
        if isinstance(e.func, ast.Name) and e.func.id == "__cast__":
            v = self.ev(e.args[1], fr)
            ty = e.args[0].value
            if ty in C_INT:
                return self.coerce(ty, v)
            return v
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            selfname = fr.fn.node.args.args[0].arg
            return SuperObj(fr.cls, self.lookup(selfname, fr))
        f = self.ev(e.func, fr)
        args, kwargs = self.call_args(e, fr)
        fr.lineno = getattr(e, "lineno", fr.lineno)
        return self.call(f, args, kwargs, fr)

    def call_args(self, e, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, (StarArgs, StarTuple)):
                    args += v.prefix
                    args.append(StarArgs(v.seq))
                    continue
                it = self.concrete_iter(v)
                if it is None:
                    if coll.ghost_of(v) is not None:
                        args.append(StarArgs(coll.ghost_of(v)))
                        continue
                    if isinstance(v, ListObj):
                        args.append(StarArgs(v))
                        continue
                    if isinstance(v, SV) or isinstance(v, Heap):
                        args.append(StarArgs(v))
                        continue
                    raise Unsupported(f"call with *{v!r} at {self.where()}")
                args += it
            else:
                args.append(self.ev(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is not None:
                kwargs[k.arg] = self.ev(k.value, fr)
            else:
                v = self.ev(k.value, fr)
                if isinstance(v, KwRest) or isinstance(v, coll.GDict):
                    kwargs["**"] = v
                    continue
                d = v
                if not isinstance(d, DictObj):
                    d = self.new(DictObj())
                    self.dict_update(d, v)
                for kk, (p, x) in d.entries.items():
                    if is_true(p) or (not is_false(p) and self.branch(p)):
                        if kk in kwargs:
                            self.raise_("TypeError", f"multiple values for {kk}")
                        kwargs[kk] = x
                if d.rest is not None:
                    kwargs["**"] = d.rest
        return args, kwargs

    def call(self, f, args, kwargs=None, fr=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            if isinstance(f.fn, Closure):
                return self.call_closure(f.fn, [f.self_] + list(args), kwargs)
            return self.call(f.fn, [f.self_] + list(args), kwargs, fr)
        if isinstance(f, Native):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, Ext):
            m = self.world.model_of(f)
            if m is not None:
                return self.call(m, args, kwargs, fr) if not (m is f) else None
            mc = self.world.model_classes.get(f.path) or (f.pyobj is not None and self.world.model_classes.get(id(f.pyobj)))
            if mc:
                return self.instantiate(mc, list(args), kwargs)
            if isinstance(f.pyobj, type) and issubclass(f.pyobj, BaseException):
                return self.mk_exc(f, *args)
            h = self.hooks.get("ext_call")
            if h:
                r = h(self, f, args, kwargs)
                if r is not UNSET:
                    return r
            if f.path == "builtins.object.__setattr__" and isinstance(args[0], Obj) and isinstance(args[1], str):
                c = self.class_attr(args[0].cls, args[1])
                if c is UNSET or isinstance(c, Ext) or args[1] in args[0].fields:
                    return self.write(args[0], args[1], args[2])
            if self.setup:
                return Ext(f"{f.path}()")
            raise Unsupported(f"call of external {f.path} at {self.where()}")
        if isinstance(f, SV):
            if f.model is not None and hasattr(f.model, "call"):
                return f.model.call(self, f, args, kwargs)
            h = self.hooks.get("opaque_call")
            if h:
                r = h(self, f, args, kwargs)
                if r is not UNSET:
                    return r
            return self.default_opaque_call(f, args, kwargs)
        if isinstance(f, Obj):
            m = self.class_attr(f.cls, "__call__")
            if m is not UNSET:
                return self.call(self.bind(m, f), args, kwargs, fr)
            if self.class_has_ext_base(f.cls):
                raise Unsupported(f"call of {f!r}")
            self.raise_("TypeError", "not callable")
        if isinstance(f, (ClassM, StaticM)):
            return self.call(f.fn, args, kwargs, fr)
        if hasattr(f, "call"):
            return f.call(self, args, kwargs)
        if isinstance(f, Poison):
            raise Unsupported(f.why)
        if f is None or isinstance(f, (int, str, tuple)):
            self.raise_("TypeError", "not callable")
        raise Unsupported(f"call of {f!r} at {self.where()}")

    def default_opaque_call(self, f, args, kwargs):
        self.event("call", f, tuple(args), dict(kwargs))
        k = self.fork("user function returns", "user function raises")
        if k == 0:
            r = self.fresh("ret")
            self.event("ret", f, r)
            return r
        e = self.fresh_exc("exc")
        self.event("exc", f, e)
        raise PyExc(e)

    def call_closure(self, f, args, kwargs):
        q = f"{f.module.name}:{f.qualname}"
        s = self.summaries.get(q)
        if s is not None:
            r = s(self, f, args, kwargs)
            if r is not UNSET:
                return r
        if len(self.frames) > 40:
            raise Unsupported(f"inlining too deep at {q}")
        self.v.inlined.add(q)
        env = Env(f.env)
        self.bind_args(f, args, kwargs, env)
        loc, glo, non, gen = local_info(f.node)
        env.names = loc
        if gen:
            a, k = list(args), dict(kwargs)
            return Gen(lambda oy: self.run_body(f, env, oy), q, f.is_async, a, k, f)
        if f.is_async:
            return Coro(lambda: self.run_body(f, env, None), q, list(args), dict(kwargs), f)
        return self.run_body(f, env, None)

    def run_body(self, f, env, on_yield):
        fr = Frame(self, env, f.module, f.cls, f.qualname, f)
        fr.on_yield = on_yield
        fr.lineno = getattr(f.node, "lineno", 0)
        self.frames.append(fr)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, fr)
            try:
                self.exec_body(f.node.body, fr)
                r = None
            except ReturnSig as s:
                r = s.value
            ret = getattr(f.node, "cret", None)
            if ret and ret in C_INT:
                if r is None:
                    r = 0
                r = self.coerce(ret, r)
            return r
        finally:
            self.frames.pop()

    def bind_args(self, f, args, kwargs, env):
        a = f.node.args
        ct = getattr(f.node, "ctypes", {}) or {}
        names = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        args = list(args)
        rest = kwargs.pop("**", None)
        star = None
        if any(isinstance(x, StarArgs) for x in args):
            i = next(i for i, x in enumerate(args) if isinstance(x, StarArgs))
            if i < len(args) - 1:
                raise Unsupported(f"arguments after *args of unknown length: {args} at {self.where()}")
            star = args.pop()
            if len(args) < len(names) and any(n not in kwargs for n in names[len(args):]):
                # the star may fill named parameters
                defaults_from = len(names) - len(f.defaults)
                raise Unsupported(f"*args of unknown length into named parameters of {f.qualname}")
        if len(args) > len(names) and not a.vararg:
            self.raise_("TypeError", f"{f.name}() takes {len(names)} positional arguments but {len(args)} were given")
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        extra = args[len(names):]
        for n in names:
            if n in kwargs:
                if n in vals:
                    self.raise_("TypeError", f"{f.name}() got multiple values for argument {n}")
                vals[n] = kwargs.pop(n)
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    if rest is not None and False:
                        pass
                    self.raise_("TypeError", f"{f.name}() missing argument {n}")
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                vals[n] = kwargs.pop(n)
            elif f.kwdefaults.get(n, UNSET) is not UNSET:
                vals[n] = f.kwdefaults[n]
            else:
                self.raise_("TypeError", f"{f.name}() missing keyword argument {n}")
        if a.vararg:
            if star is not None and (isinstance(star.seq, coll.GColl) or getattr(star.seq, "as_varargs", False)) and not extra and not star.prefix:
                vals[a.vararg.arg] = star.seq
            elif star is not None:
                vals[a.vararg.arg] = StarTuple(star.seq, tuple(extra) + star.prefix)
            else:
                vals[a.vararg.arg] = tuple(extra)
        elif star is not None:
            raise Unsupported("*args into a function without varargs")
        if a.kwarg:
            if isinstance(rest, coll.GDict):
                if kwargs:
                    raise Unsupported("named keywords beside a family of keywords")
                d = self.new(coll.GDict(rest.fam, rest.entries, rest.order))
            else:
                d = self.new(DictObj({k: (True, v) for k, v in kwargs.items()}, rest))
            vals[a.kwarg.arg] = d
        elif kwargs or rest is not None:
            if rest is not None and not kwargs:
                raise Unsupported(f"open **kwargs into {f.qualname}")
            self.raise_("TypeError", f"{f.name}() got an unexpected keyword argument {list(kwargs)}")
        for n, v in vals.items():
            if n in ct:
                v = self.coerce(ct[n], v)
            env.vars[n] = v

    def instantiate(self, cls, args, kwargs):
        h = self.summaries.get("new:" + cls.qualname)
        if h is not None:
            r = h(self, cls, args, kwargs)
            if r is not UNSET:
                return r
        if cls.metaclass is not None:
            mc = self.class_attr(cls.metaclass, "__call__")
            if mc is not UNSET:
                return self.call(self.bind(mc, cls), args, kwargs)
        return self.type_call(cls, args, kwargs)

    def type_call(self, cls, args, kwargs):
        if getattr(cls, "typed_dict", False):
            return self.new(DictObj({k: (True, v) for k, v in kwargs.items()}))
        nw = self.class_attr(cls, "__new__")
        if nw is not UNSET and not isinstance(nw, Native):
            fn = nw.fn if isinstance(nw, StaticM) else nw
            o = self.call(fn, [cls] + list(args), kwargs)
            if not (isinstance(o, Obj) and self.subclass(o.cls, cls)):
                return o
        elif isinstance(nw, Native):
            o = nw.fn(self, [cls] + list(args), kwargs)
        else:
            o = self.new(Obj(cls))
        # __cinit__ of every cdef class, base first
        for c in reversed(cls.mro()):
            if isinstance(c, Cls) and "__cinit__" in c.ns:
                f = c.ns["__cinit__"]
                n = len(f.node.args.args) - 1
                self.call_closure(f, [o] + (list(args)[:n] if n or f.node.args.vararg else []), kwargs if f.node.args.kwarg else {})
        init = self.class_attr(cls, "__init__")
        if init is not UNSET:
            self.call(self.bind(init, o), args, kwargs)
        elif isinstance(cls, Cls) and self.subclass(cls, self.exc_class("BaseException")):
            o.fields["args"] = tuple(args)
        elif (args or kwargs) and self.class_has_ext_base(cls):
            raise Unsupported(f"construction of {cls!r} through an external base")
        return o


class _NsLoc:
    def __init__(self, o):
        self.o = o

    def setloc(self, k, v):
        if v is UNSET:
            self.o.ns.pop(k, None)
        else:
            self.o.ns[k] = v


class P(tuple):
    pass


class StarArgs(Val):
    """*args whose length is unknown"""

    def __init__(self, seq, prefix=()):
        self.seq, self.prefix = seq, tuple(prefix)


class StarTuple(Val):
    """a tuple: known elements, then those of a sequence of unknown length (what *args binds)"""

    def __init__(self, seq, prefix=()):
        self.seq, self.prefix = seq, tuple(prefix)
        self.cls = Ext("builtins.tuple", tuple)


class KwRest(Val):
    pass


class AwaitIter(Val):
    """result of x.__await__() for something awaitable"""

    def __init__(self, target):
        self.target = target


class InstDict(Val):
    """obj.__dict__"""

    def __init__(self, o):
        self.o = o

    def contains(self, run, k):
        return k in self.o.fields and self.o.fields[k] is not UNSET

    def getitem(self, run, k):
        if not self.contains(run, k):
            run.raise_("KeyError", k)
        return self.o.fields[k]

    def setitem(self, run, k, v):
        run.write(self.o, k, v)

    def getattr(self, run, name):
        if name == "update":

            def update(r, a, k):
                for d in a:
                    src = d.o.fields if isinstance(d, InstDict) else {x: v for x, (p, v) in d.entries.items() if is_true(p)} if isinstance(d, DictObj) and d.rest is None and all(is_true(p) for p, _ in d.entries.values()) else None
                    if src is None:
                        raise Unsupported("__dict__.update")
                    for x, v in list(src.items()):
                        if v is not UNSET:
                            r.write(self.o, x, v)
                for x, v in k.items():
                    r.write(self.o, x, v)

            return Native("update", update)
        return UNSET

    def truth(self, run):
        return any(v is not UNSET for v in self.o.fields.values())


class SuperObj(Val):
    def __init__(self, cls, o):
        self.cls, self.o = cls, o

    def lookup(self, run, name):
        o = self.o
        mro = (o.cls if isinstance(o, Obj) else o).mro()
        meta = isinstance(o, Cls) and self.cls not in mro and o.metaclass is not None and self.cls in o.metaclass.mro()
        if meta:
            mro = o.metaclass.mro()
        i = next((i for i, c in enumerate(mro) if c is self.cls), -1)
        for c in mro[i + 1 :]:
            if name == "__new__" and isinstance(c, Ext) and isinstance(c.pyobj, type) and issubclass(c.pyobj, type) and run.hooks.get("type_new"):
                return Native("type.__new__", run.hooks["type_new"])
            if isinstance(c, Ext) and isinstance(c.pyobj, type) and name in ("__init__", "__new__", "submit", "shutdown", "put", "get", "cancel", "set_result", "set_exception") and name in c.pyobj.__dict__ and c.pyobj is not object and not issubclass(c.pyobj, BaseException) and c.pyobj.__module__ not in ("typing", "collections.abc", "abc"):
                break  # the next implementation is external
            if isinstance(c, Cls) and name in c.ns:
                f = c.ns[name]
                if isinstance(f, Prop):
                    return run.call(f.fget, [o], {})
                if isinstance(f, Obj) and run.class_attr(f.cls, "__get__") is not UNSET:
                    return run.call(run.bind(run.class_attr(f.cls, "__get__"), f), [o, o.cls], {})
                if isinstance(f, Poison):
                    raise Unsupported(f.why)
                if isinstance(f, StaticM):
                    return f.fn
                if isinstance(f, ClassM):
                    return Bound(f.fn, o.cls if isinstance(o, Obj) else o)
                return run.bind(f, o)
        from . import models

        if meta and name == "__init__":
            return Native("type.__init__", lambda r, a, k: None)

        r = models.super_default(run, self, name, mro[i + 1 :])
        if r is not UNSET:
            return r
        raise Unsupported(f"super().{name} of {self.cls!r}")


class ExcModel:
    """opaque exception instances"""

    def getattr(self, run, o, name):
        if name == "with_traceback":
            return Native("with_traceback", lambda r, a, k: o)
        if name == "args":
            return SV(z3.Function("exc_args", V, V)(o.t))
        if name == "__class__":
            return UNSET
        return UNSET

    def setattr(self, run, o, name, v):
        run.event("exc-setattr", o, name, v)

    def truth(self, run, o):
        return True


EXC_MODEL = ExcModel()


class SeqCursor:
    """iteration over a z3 sequence: ghost prefix P, element x, S == P.x.R"""

    def __init__(self, run, seq, elem=None, name="it"):
        self.S = seq
        self.elem_fn = elem
        self.name = name
        self.P = z3.Empty(SeqV)

    def begin(self, run):
        self.P = z3.Empty(SeqV)

    def havoc(self, run):
        self.P = run.fresh("prefix_" + self.name, "seq")
        run.assume(z3.PrefixOf(self.P, self.S))

    def candidates(self, run):
        return []

    def more(self, run):
        k = run.fork("next element", "exhausted")
        if k == 1:
            run.assume(self.P == self.S)
            return False
        self.x = run.fresh("elem_" + self.name)
        self.R = run.fresh("suffix_" + self.name, "seq")
        run.assume(self.S == z3.Concat(self.P, z3.Unit(self.x.t), self.R))
        return True

    def element(self, run):
        return self.elem_fn(run, self.x.t) if self.elem_fn else self.x

    def advance(self, run):
        self.P = z3.Concat(self.P, z3.Unit(self.x.t))

    def finish(self, run):
        pass


class RangeVal(Val):
    """range(lo, hi) of symbolic bounds"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        self.cls = Ext("builtins.range", range)

    def truth(self, run):
        return self.hi > self.lo

    def iterator(self, run):
        return RangeCursor(self)


class RangeCursor:
    def __init__(self, r):
        self.r = r

    def begin(self, run):
        self.i = self.r.lo

    def havoc(self, run):
        self.i = run.fresh("range_i", "int").t
        run.assume(self.i >= self.r.lo)
        run.assume(z3.Or(self.i <= self.r.hi, self.i == self.r.lo))

    def candidates(self, run):
        return []

    def more(self, run):
        return run.branch(self.i < self.r.hi)

    def element(self, run):
        return SInt(self.i)

    def advance(self, run):
        self.i = self.i + 1

    def finish(self, run):
        pass


class ReversedList(Val):
    """reversed(l)"""

    def __init__(self, l):
        self.l = l


class WhileCursor:
    def __init__(self, run, st, fr):
        self.st, self.fr = st, fr

    def begin(self, run):
        pass

    def havoc(self, run):
        pass

    def candidates(self, run):
        return []

    def more(self, run):
        return run.truth(run.ev(self.st.test, self.fr))

    def element(self, run):
        return None

    def advance(self, run):
        pass

    def finish(self, run):
        pass


class GenNext(Val):
    """gen.__anext__(), not awaited"""

    def __init__(self, gen):
        self.gen = gen


class ObjCursor:
    """for x in obj, through obj.__next__ / __anext__ of the repository"""

    def __init__(self, run, o, is_async):
        self.o, self.is_async = o, is_async

    def begin(self, run):
        pass

    def havoc(self, run):
        pass

    def candidates(self, run):
        return []

    def more(self, run):
        stop = "StopAsyncIteration" if self.is_async else "StopIteration"
        try:
            m = run.getattr_(self.o, "__anext__" if self.is_async else "__next__")
            v = run.call(m, [], {})
            if self.is_async:
                v = run.await_(v)
            self.x = v
            return True
        except PyExc as e:
            if run.exc_matches(e.value, run.exc_class(stop)):
                return False
            raise

    def element(self, run):
        return self.x

    def advance(self, run):
        pass

    def finish(self, run):
        pass


STRUCTURAL = {
    "AsyncIterable": ["__aiter__"], "AsyncIterator": ["__aiter__", "__anext__"], "Iterable": ["__iter__"],
    "Iterator": ["__iter__", "__next__"], "Awaitable": ["__await__"], "Callable": ["__call__"], "Hashable": ["__hash__"],
    "Sized": ["__len__"], "Container": ["__contains__"],
}


def is_excls(c):
    return (isinstance(c, Ext) and isinstance(c.pyobj, type) and issubclass(c.pyobj, BaseException)) or (
        isinstance(c, Cls) and any(is_excls(x) for x in c.mro()[1:])
    )


def is_excobj(run, o):
    return is_excls(o.cls)


def zb(v):
    return v.t if isinstance(v, SBool) else z3.BoolVal(v)


def num_term(v):
    if isinstance(v, (SInt, SReal)):
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, 1, 0)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, float):
        return z3.RealVal(repr(v)) if v == v and abs(v) != float("inf") else v
    return v


def str_term(v):
    return v.t if isinstance(v, SStr) else z3.StringVal(v)


def znot(t):
    if isinstance(t, bool):
        return not t
    return z3.simplify(z3.Not(t))


def zand(a, b):
    if is_false(a) or is_false(b):
        return False
    if is_true(a):
        return b
    if is_true(b):
        return a
    return z3.And(a, b)


def zor(a, b):
    if is_true(a) or is_true(b):
        return True
    if is_false(a):
        return b
    if is_false(b):
        return a
    return z3.Or(a, b)


def short(t):
    s = str(t).replace("\n", " ")
    return s if len(s) < 120 else s[:117] + "..."


from . import coll  # noqa: E402
