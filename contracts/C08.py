"""CounterLock: wait_for / set from an arbitrary reachable state: any value, any number of targets being waited for.

Events are used through their contract (C09): c_wait() returns only after the event was set, c_set() wakes all its waiters.
Ghost: evset[e] (event e was set), keyof(e) (the target e was created for).  Invariant, for every key k and event e:
  heap holds k exactly once iff k is in _events;  a key in _events is above the counter and its event is unset and belongs to it;
  evset[e] => counter >= keyof(e);   an unset event that has been waited for is still registered."""
from .futures import *
from .maps import *

Q = "a_sync.primitives.locks.counter:CounterLock"
keyof = z3.Function("target_of_event", V, V)


class EvModel:
    def getattr(self, run, o, name):
        if name in ("c_set", "set"):
            return Native(name, lambda r, a, k: r.gset("evset", z3.Store(r.gget("evset"), o.t, True)))
        if name in ("c_wait", "wait"):
            return Native(name, lambda r, a, k: Coro(lambda: self.wait(r, o), "Event.wait"))
        if name == "is_set":
            return Native(name, lambda r, a, k: SBool(z3.Select(r.gget("evset"), o.t)))
        raise Unsupported(f"event.{name}")

    def truth(self, run, o):
        return True

    def wait(self, run, o):
        if run.branch(z3.Select(run.gget("evset"), o.t)):
            return True
        run.event("suspend", o)
        run.rely()
        if run.fork("event set", "waiter cancelled") == 1:
            run.raise_("CancelledError")
        run.assume(z3.Select(run.gget("evset"), o.t))
        return True


EV = EvModel()


def ikey(t):
    return V.i(t)


class Counter(Contract):
    functions = [Q + "." + m for m in ("__init__", "wait_for", "set", "c_set", "is_ready", "c_is_ready", "value")]
    assumes = ("Event by its contract (C09: c_wait returns only after c_set, c_set wakes every waiter)", "heapq: heappop removes a least element", "dict", "libc malloc/strcpy; logging")

    def new_event(self, run, f, args, kwargs):
        e = run.fresh("event")
        e.model = EV
        run.assume(z3.Not(z3.Select(run.gget("evset"), e.t)))
        run.assume(keyof(e.t) == self.target)
        run.assume(V.is_opq(e.t))
        for k in self.points:
            run.assume(z3.Implies(self.events.H(k), self.events.G(k) != e.t))
        return e

    @property
    def summaries(self):
        return {"new:a_sync.primitives.locks.event:CythonEvent": self.new_event}

    def setup(self, run):
        install_loop(run)
        init(run)
        run.gset("evset", z3.Const("evset", BoolMap))
        lock = run.call(run.world.fn(Q), [], {"start_value": run.fresh("start", "int")} if False else {})
        self.lock = lock
        self.v0 = z3.Int("counter")
        run.assume(z3.And(self.v0 >= -(2**63), self.v0 < 2**63))
        run.write(lock, "_value", SInt(self.v0))
        ev = lambda r, t: SV(t, EV)
        self.events = SymMap(run, "events", ev)
        self.heap = SymHeap(run, "heap", lambda a, b: ikey(a) <= ikey(b))
        run.write(lock, "_events", self.events)
        run.write(lock, "_heap", self.heap)
        self.k = z3.Const("some_target", V)
        run.assume(V.is_intv(self.k))
        self.points = [self.k]
        run.hooks["points"] = lambda r: self.points
        self.heap.on_pop = self.on_pop
        return lock

    def value(self, run):
        return num_term_(run.getattr_(self.lock, "_value"))

    def at(self, run, k, strict=True):
        """the invariant at key k"""
        v, ev, hp, es = self.value(run), self.events, self.heap, run.gget("evset")
        out = [
            ("heap holds exactly the keys of _events", hp.C(k) == z3.If(ev.H(k), 1, 0)),
            ("a registered event belongs to its key and is unset", z3.Implies(ev.H(k), z3.And(V.is_opq(ev.G(k)), keyof(ev.G(k)) == k, z3.Not(z3.Select(es, ev.G(k)))))),
            ("keys are integers", z3.Implies(z3.Or(ev.H(k), hp.C(k) > 0), z3.And(V.is_intv(k), ikey(k) >= -(2**63), ikey(k) < 2**63))),
        ]
        if strict:
            out.append(("registered targets are above the counter", z3.Implies(ev.H(k), ikey(k) > v)))
        return out

    def assume_at(self, run, k, strict=True):
        for _, t in self.at(run, k, strict):
            run.assume(t)

    def prove_at(self, run, k):
        for n, t in self.at(run, k):
            run.prove(t, "invariant: " + n)

    def on_pop(self, run, x):
        self.assume_at(run, x, strict=False)


def num_term_(v):
    from pyvc.engine import num_term

    t = num_term(v)
    return t if z3.is_expr(t) else z3.IntVal(t)


class Init(Counter):
    name = "a new counter lock has its start value and no waiters"
    must_cover = ("made",)

    def run(self, run):
        install_loop(run)
        init(run)
        s = run.fresh("start", "int")
        out = outcome_of(run, lambda: run.call(run.world.fn(Q), [], {"start_value": s}))
        ok = z3.And(s.t >= -(2**63), s.t < 2**63)
        if out[0] == "exc":
            run.prove(z3.Not(ok), "construction fails only for values no 64-bit counter holds")
            return
        run.cover("made")
        run.prove(num_term_(run.getattr_(out[1], "_value")) == s.t, "the counter starts at its start value")
        run.prove(run.truth_term(run.getattr_(out[1], "_events")) is False and run.truth_term(run.getattr_(out[1], "_heap")) is False, "no targets registered")


class Set(Counter):
    name = "set(v): raises and changes nothing if lower; else wakes exactly the targets reached"
    must_cover = ("lowered", "raised", "same", "woken", "not woken")

    def __init__(self, how):
        self.how = how
        self.name += f" ({how})"

    def invariants(self, run, loop_id, st, fr, cur):
        k = self.k
        yield from [(n, (lambda t: lambda: t)(t)) for n, t in self.at(run, k, strict=False)]
        h0, e0, s0 = self.h0, self.e0, self.s0
        es = run.gget("evset")
        yield "only shrinks", lambda: z3.Implies(self.events.H(k), z3.And(h0, self.events.G(k) == e0))
        yield "dropped keys are reached and their events set", lambda: z3.Implies(z3.And(h0, z3.Not(self.events.H(k))), z3.And(ikey(k) <= self.value(run), z3.Select(run.gget("evset"), e0)))
        yield "events of kept keys untouched", lambda: z3.Implies(z3.And(h0, self.events.H(k)), z3.Select(run.gget("evset"), e0) == z3.Select(s0, e0))
        yield "foreign events untouched", lambda: z3.Implies(z3.Not(z3.And(h0, self.e == e0)), z3.Implies(keyof(self.e) == k, z3.Select(run.gget("evset"), self.e) == z3.Select(s0, self.e)))
        yield "value is the new one", lambda: self.value(run) == self.new

    def run(self, run):
        lock = self.setup(run)
        k = self.k
        self.assume_at(run, k)
        v = run.fresh("new_value", "int")
        run.assume(z3.And(v.t >= -(2**63), v.t < 2**63))
        self.new = v.t
        self.h0, self.e0, self.s0 = self.events.H(k), self.events.G(k), run.gget("evset")
        self.e = z3.Const("some_event", V)
        cnt0, has0, val0 = self.heap.cnt, self.events.has, self.events.val
        if self.how == "set":
            out = outcome_of(run, lambda: run.call(run.getattr_(lock, "set"), [v], {}))
        else:
            out = outcome_of(run, lambda: run.setattr_(lock, "value", v))
        if run.branch(v.t < self.v0):
            run.cover("lowered")
            prove_exc(run, out, "ValueError", "lowering raises ValueError")
            run.prove(self.value(run) == self.v0, "lowering changes nothing: value")
            run.prove(z3.And(self.heap.cnt == cnt0, self.events.has == has0, self.events.val == val0, run.gget("evset") == self.s0), "lowering changes nothing: waiters")
            return
        run.prove(out[0] == "ret", "raising the counter does not fail")
        run.prove(self.value(run) == v.t, "the counter has the new value")
        run.prove(num_term_(run.getattr_(lock, "value")) == v.t, "the value property tells it")
        run.cover("raised" if not run.branch(v.t == self.v0) else "same")
        self.prove_at(run, k)
        es = run.gget("evset")
        if run.branch(self.h0):
            if run.branch(ikey(k) <= v.t):
                run.cover("woken")
                run.prove(z3.Select(es, self.e0), "every waiter whose target is reached is woken")
            else:
                run.cover("not woken")
                run.prove(z3.And(self.events.H(k), self.events.G(k) == self.e0, z3.Not(z3.Select(es, self.e0))), "no waiter whose target is not reached is woken")
        else:
            run.prove(z3.Not(self.events.H(k)), "set() registers nothing")


class Wait(Counter):
    name = "wait_for(v): at once if reached, else resumes only when the counter has reached v"
    must_cover = ("ready", "new target", "known target", "resumed", "cancelled")

    def run(self, run):
        lock = self.setup(run)
        v = run.fresh("target", "int")
        run.assume(z3.And(v.t >= -(2**63), v.t < 2**63))
        self.target = t = V.intv(v.t)
        self.points = [self.k, t]
        for k in self.points:
            self.assume_at(run, k)
        self.mine = None
        run.prove(zbool(run.truth_term(run.call(run.getattr_(lock, "is_ready"), [v], {}))) == (self.v0 >= v.t), "is_ready(v) tells whether v is reached")
        known = self.events.H(t)
        coro = run.call(run.getattr_(lock, "wait_for"), [v], {})
        run.prove(is_awaitable(run, coro), "wait_for() is awaitable")
        out = outcome_of(run, lambda: run.await_(coro))
        sus = [e for e in run.trace if e[0] == "suspend"]
        if run.branch(self.v0 >= v.t):
            run.cover("ready")
            run.prove(not sus and out[0] == "ret" and run.truth_term(out[1]) is True, "a target that is reached already returns True at once")
            return
        run.prove(len(sus) == 1, "a target not reached yet waits")
        run.cover("known target" if not run.branch(z3.Not(known)) else "new target")
        if out[0] == "ret":
            run.cover("resumed")
            run.prove(self.value(run) >= v.t, "resumes only after the counter has reached the target")
            run.prove(run.truth_term(out[1]) is True, "wait_for() gives True")
        else:
            run.cover("cancelled")
            prove_exc(run, out, "CancelledError", "fails only when cancelled")
            run.prove(z3.And(self.value(run) == self.v1, self.heap.cnt == self.c1, self.events.has == self.h1, run.gget("evset") == self.s1), "a cancelled waiter changes nothing for the others")

    def rely(self, run):
        sus = [e for e in run.trace if e[0] == "suspend"]
        if not sus:
            return
        e = sus[-1][1].t
        t = self.target
        for k in (self.k, t):
            self.prove_at(run, k)
        run.prove(z3.And(self.events.H(t), self.events.G(t) == e), "the event waited for is the registered one of the target")
        run.prove(self.value(run) == self.v0, "waiting leaves the counter alone")
        run.prove(z3.Implies(self.k != t, z3.And(self.events.H(self.k) == z3.Select(self.events_0h(), self.k))), "waiting touches no other target")
        # anything the other tasks may do
        old = self.value(run)
        nv = run.fresh("counter", "int")
        run.assume(nv.t >= old)
        run.write(self.lock, "_value", nv)
        self.events.havoc(run)
        self.heap.havoc(run)
        s0 = run.gget("evset")
        run.gset("evset", z3.Const(run.fresh_name("evset"), BoolMap))
        run.assume(z3.Implies(z3.Select(s0, e), z3.Select(run.gget("evset"), e)))
        for k in (self.k, t):
            self.assume_at(run, k)
        # evset[e] => counter >= keyof(e): established by set() (dropped keys are reached and their events set), kept as the counter only grows
        run.assume(z3.Implies(z3.Select(run.gget("evset"), e), nv.t >= ikey(keyof(e))))
        self.v1, self.c1, self.h1, self.s1 = nv.t, self.heap.cnt, self.events.has, run.gget("evset")

    def events_0h(self):
        return z3.Const("events_has!0", HasMap)


def contracts():
    return [Init(), Set("set"), Set("value ="), Wait()]
