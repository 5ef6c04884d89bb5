"""Singletons: the instances stored per mode are an arbitrary part of {sync, async}; other threads construct at any time they can.

Invariant: whatever is stored for a mode stays and is in that mode.  A step of another thread that can matter (storing an instance for a
mode) happens only while that thread holds the class's lock, so it is seen at the moments the lock is acquired here: rely = whatever was stored
stays, more may be."""
from .common import *
from .objview import *

MT = "a_sync.a_sync._meta:ASyncSingletonMeta."
FORMS = {
    # how the mode is given: (class body, call, the mode as (name of symbolic value, affirmative))
    "keyword sync": ("def __init__(self, sync=DEFAULT, x=None):\n        ASyncGenericSingleton.__init__(self)\n        self.sync = sync\n        INIT(self, x)", "K(sync=VALUE, x=X)", "VALUE", True),
    "keyword asynchronous": ("def __init__(self, asynchronous=DEFAULT, x=None):\n        ASyncGenericSingleton.__init__(self)\n        self.asynchronous = asynchronous\n        INIT(self, x)", "K(asynchronous=VALUE, x=X)", "VALUE", False),
    "positional": ("def __init__(self, x, sync=DEFAULT):\n        ASyncGenericSingleton.__init__(self)\n        self.sync = sync\n        INIT(self, x)", "K(X, VALUE)", "VALUE", True),
    "constructor default": ("def __init__(self, x, asynchronous=DEFAULT):\n        ASyncGenericSingleton.__init__(self)\n        self.asynchronous = asynchronous\n        INIT(self, x)", "K(X)", "DEFAULT", False),
    "class attribute": ("sync = DEFAULT\n    def __init__(self, x=None):\n        ASyncGenericSingleton.__init__(self)\n        INIT(self, x)", "K(x=X)", "DEFAULT", True),
}


class Singleton(Contract):
    functions = [MT + "__init__", MT + "__call__", "a_sync.a_sync.abstract:ASyncABC.__a_sync_instance_will_be_sync__", "a_sync.a_sync.base:ASyncGenericBase.__a_sync_instance_will_be_sync__", "a_sync.a_sync.base:ASyncGenericBase.__a_sync_default_mode__", "a_sync.a_sync.base:_get_a_sync_flag_name_from_class_def", "a_sync.a_sync.base:_get_a_sync_flag_value_from_class_def", "a_sync.a_sync.base:_a_sync_flag_default_value_from_signature", "a_sync.a_sync._kwargs:get_flag_name", "a_sync.a_sync._kwargs:is_sync", "a_sync.a_sync._flags:validate_and_negate_if_necessary"]
    assumes = (
        "threading locks exclude each other (modelled); dict operations are atomic (the GIL)",
        "the initialiser keeps the flag it is given, as the library's classes require; the flag is a bool (others raise InvalidFlagValue)",
        "weakref.WeakKeyDictionary, inspect.signature: modelled",
    )
    must_cover = ("stored before", "first", "stored by another thread meanwhile", "initialiser fails", "sync", "async")

    def __init__(self, form, sub):
        self.form, self.sub = form, sub
        self.name = f"constructing a singleton, mode by {form}" + (", of a subclass" if sub else "")

    def run(self, run):
        body, call, val, affirmative = FORMS[self.form]
        self.value, self.default, X = run.fresh("VALUE", "bool"), run.fresh("DEFAULT", "bool"), run.fresh("X")
        self.fail = None
        self.inits = []
        self.nested = None
        K = "Sub" if self.sub else "K"
        head = body + ("\nclass Sub(K):\n    pass" if self.sub else "")
        if self.sub and self.form == "class attribute":
            pass
        def init(r, a, k):
            self.inits.append((a[0], a[1], self.held))
            if r.fork("initialiser works", "initialiser fails"):
                self.fail = r.fresh_exc("init_error")
                r.cover("initialiser fails")
                raise PyExc(self.fail)
            return None

        src = f"""
from a_sync.a_sync.singleton import ASyncGenericSingleton
class K(ASyncGenericSingleton):
    {head}
class Other(K):
    pass
"""
        ns = user_module(run, src, VALUE=self.value, DEFAULT=self.default, X=X, INIT=Native("INIT", init))
        cls = ns[K]
        parent = ns["K"] if self.sub else ns["Other"]
        inst = self.table(run, cls)
        pinst = self.table(run, parent)
        run.prove(inst is not None and pinst is not None and inst is not pinst and inst is not self.table(run, ns["Other"]), "a class and its subclasses store their instances separately")
        run.prove(not inst.entries and not pinst.entries, "a new class has no instance")
        # what others constructed before: any part
        k = ("none", "sync", "async", "both")[run.fork("none stored", "sync stored", "async stored", "both stored")]
        stored = {}
        for m, n in ((True, "sync"), (False, "async")):
            if k in (n, "both"):
                stored[m] = run.new(Obj(cls))
                run.setitem(inst, m, stored[m])
        parents = run.new(Obj(parent))
        run.setitem(pinst, True, parents)
        # the mode asked for
        v = self.value if val == "VALUE" else self.default
        want = run.branch(v.t if affirmative else z3.Not(v.t))
        run.cover("sync" if want else "async")
        self.held = 0
        self.locks = []

        def acquire(r, l):
            if not self.held:
                # whatever other threads did until now
                for m in (True, False):
                    if m not in stored and r.fork("", f"{'sync' if m else 'async'} stored by another thread meanwhile"):
                        stored[m] = r.new(Obj(cls))
                        r.setitem(inst, m, stored[m])
                        if m == want:
                            r.cover("stored by another thread meanwhile")
                self.mid = dict(stored)
            self.held += 1
            self.locks.append(l)

        def release(r, l):
            self.held -= 1

        run.hooks["lock_acquire"], run.hooks["lock_release"] = acquire, release
        e0 = self.entries(run, inst)
        had = want in stored
        self.mid = dict(stored)
        run.hooks["on_setitem"] = None
        src2 = f"o = {call.replace('K(', K + '(')}"
        out = outcome_of(run, lambda: self.exec(run, ns, src2))
        run.prove(self.held == 0, "the lock is given back")
        now = self.entries(run, inst)
        run.prove(self.entries(run, pinst) == {True: parents}, "subclasses never share an instance with their parent")
        run.prove(all(now.get(m) is o for m, o in self.mid.items()), "what is stored stays")
        run.prove(len(set(map(id, self.locks))) <= 1, "one lock")
        if want in self.mid:
            run.cover("stored before") if had else None
            prove_outcome(run, out, ("ret", self.mid[want]), "a mode's instance is returned again")
            run.prove(not self.inits, "the initialiser does not run again")
            run.prove(set(now) == set(self.mid), "nothing else is stored")
            return
        run.cover("first")
        run.prove(len(self.inits) == 1, "the initialiser runs once")
        if len(self.inits) != 1:
            return
        o, x, held = self.inits[0]
        prove_same(run, x, X, "with the arguments given")
        run.prove(held == 1, "while no other thread can construct an instance of the class")
        if self.fail is not None:
            prove_outcome(run, out, ("exc", self.fail), "the initialiser's failure reaches the caller")
            run.prove(set(now) == set(self.mid), "an instance that failed to initialise is not stored")
            return
        prove_outcome(run, out, ("ret", o), "the new instance is returned")
        run.prove(now.get(want) is o and set(now) == set(self.mid) | {want}, "and stored for its mode, so that it is returned from now on")
        run.prove(all(o is not p for p in list(self.mid.values()) + [parents]), "an object of its own")
        run.prove(isinstance(o, Obj) and o.cls is cls, "an instance of the class constructed")
        mode = run.getattr_(o, "__a_sync_instance_should_await__")
        run.prove(zbool(run.truth_term(mode)) == want, "the instance is in its own mode")

    def exec(self, run, ns, src):
        import ast

        m = run.call_user if False else None
        mod = Module("user_module")
        mod.ns = ns
        env = Env()
        env.vars = ns
        fr = Frame(run, env, mod, None, "user_module.<module>", None)
        run.frames.append(fr)
        try:
            for st in ast.parse(src).body:
                run.exec_stmt(st, fr)
        finally:
            run.frames.pop()
        return ns["o"]

    def table(self, run, cls):
        t = [v for n, v in cls.ns.items() if n.endswith("__instances")]
        return t[0] if t and isinstance(t[0], DictObj) else None

    def entries(self, run, d):
        out = {}
        for k, (p, v) in d.entries.items():
            if is_true(p):
                out[k] = v
            elif not is_false(p):
                raise Unsupported("entry of undecided presence")
        return out


class Counterpart(Contract):
    name = "an initialiser may construct the instance of the other mode"
    functions = [MT + "__init__", MT + "__call__"]
    must_cover = ("constructed",)

    def run(self, run):
        made, held = [], [0]

        def init(r, a, k):
            made.append(a[0])
            if len(made) == 1:
                made.append(r.call(ns["K"], [], {"sync": SBool(z3.Not(value.t))}))

        value = run.fresh("VALUE", "bool")
        ns = user_module(
            run,
            """
from a_sync.a_sync.singleton import ASyncGenericSingleton
class K(ASyncGenericSingleton):
    def __init__(self, sync=True):
        ASyncGenericSingleton.__init__(self)
        self.sync = sync
        INIT(self)
""",
            INIT=Native("INIT", init),
        )

        def acquire(r, l):
            r.prove(not held[0] or l.reentrant, "constructing never waits for itself")
            held[0] += 1

        def release(r, l):
            held[0] -= 1

        run.hooks["lock_acquire"], run.hooks["lock_release"] = acquire, release
        out = outcome_of(run, lambda: run.call(ns["K"], [], {"sync": value}))
        other = outcome_of(run, lambda: run.call(ns["K"], [], {"sync": SBool(z3.Not(value.t))}))
        again = outcome_of(run, lambda: run.call(ns["K"], [], {"sync": value}))
        run.prove(out[0] == "ret" and len(made) == 3, "both initialisers run, once each")
        if out[0] != "ret" or len(made) != 3:
            return
        run.cover("constructed")
        run.prove(out[1] is made[0] and again[1] is made[0], "the mode's instance")
        run.prove(made[1] is made[2] and other[1] is made[2] and made[1] is not made[0], "the other mode's instance")
        for o, neg in ((made[0], False), (made[2], True)):
            m = run.truth_term(run.getattr_(o, "__a_sync_instance_should_await__"))
            run.prove(zbool(m) == (z3.Not(value.t) if neg else value.t), "each in its own mode")


def contracts():
    return [Singleton(f, s) for f in FORMS for s in (False, True)] + [Counterpart()]
