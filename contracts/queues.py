"""asyncio.Queue (trusted), over a queue whose contents are any sequence:

 * put_nowait(x): QueueFull, or x is put with self._put; the count of unfinished work grows by one
 * get_nowait(): QueueEmpty if the queue is empty, else what self._get gives
 * get(): waits until there is something (others run meanwhile) and then does as get_nowait; a cancellation takes nothing
 * _put / _get of the base class: at the back / from the front"""
from .common import *
from pyvc.engine import ReversedList


class Deque(Heap):
    """the contents"""

    kind = "deque"

    def __init__(self, run, seq):
        self.seq = seq
        self.cls = Ext("collections.deque", __import__("collections").deque)
        run.new(self)

    def locs(self):
        return {"seq": self.seq}

    def setloc(self, k, v):
        self.seq = v

    def length(self, run):
        return z3.Length(self.seq)

    def truth(self, run):
        return z3.Length(self.seq) > 0

    def havoc(self, run):
        run.write(self, "seq", run.fresh("queue", "seq"))

    def put(self, run, t, left=False):
        u = z3.Unit(t)
        run.write(self, "seq", z3.Concat(u, self.seq) if left else z3.Concat(self.seq, u))

    def pop(self, run):
        if not run.branch(z3.Length(self.seq) > 0):
            run.raise_("IndexError", "pop from an empty deque")
        x, r = run.fresh("front"), run.fresh("queue_rest", "seq")
        run.assume(self.seq == z3.Concat(z3.Unit(x.t), r))
        run.write(self, "seq", r)
        m = run.mine
        run.write(m, "#", (None, z3.Concat(m.seq, z3.Unit(x.t))))
        return x

    def getattr(self, run, name):
        if name == "append":
            return Native(name, lambda r, a, k: self.put(r, r.to_V(a[0])))
        if name == "appendleft":
            return Native(name, lambda r, a, k: self.put(r, r.to_V(a[0]), True))
        if name == "popleft":
            return Native(name, lambda r, a, k: self.pop(r))
        if name == "extend":
            return Native(name, lambda r, a, k: r.write(self, "seq", z3.Concat(self.seq, whole(r, a[0]))))
        if name == "extendleft":
            return Native(name, self.extendleft)
        return UNSET

    def extendleft(self, run, a, k):
        x = a[0]
        if isinstance(x, ReversedList):
            run.write(self, "seq", z3.Concat(whole(run, x.l), self.seq))
            return
        c = run.concrete_iter(x)
        if c is None:
            raise Unsupported(f"extendleft({x!r})")
        for y in c:
            self.put(run, run.to_V(y), True)


def whole(run, l):
    if isinstance(l, ListObj) and l.items is None:
        return l.seq
    c = run.concrete_iter(l)
    if c is None:
        raise Unsupported(f"elements of {l!r}")
    s = z3.Empty(SeqV)
    for x in c:
        s = z3.Concat(s, z3.Unit(run.to_V(x)))
    return z3.simplify(s)


def install(run, c):
    """c: contract with `queue_rely(run)` (what others may do to the queue) and attribute q (the queue object)"""
    run.mine = run.list(None, z3.Empty(SeqV))  # what was taken since, from the front each time

    def get_now(r, self):
        d = r.getattr_(self, "_queue")
        if not r.truth(d):
            r.raise_("QueueEmpty")
        x = r.call(r.getattr_(self, "_get"), [], {})
        r.event("took", x)
        return x

    def get(r, self):
        d = r.getattr_(self, "_queue")
        if not r.truth(d):
            r.rely()
            c.queue_rely(r)
            if r.fork("an item comes", "the reader is cancelled") == 1:
                c.at_cancel(r)
                r.raise_("CancelledError")
            r.assume(zbool(r.truth_term(d)))
        return get_now(r, self)

    def put_now(r, self, x):
        if r.fork("there is room", "it is full") == 1:
            r.raise_("QueueFull")
        r.event("put", x)
        r.call(r.getattr_(self, "_put"), [x], {})

    table = {
        "get_nowait": lambda r, a: get_now(r, a[0]),
        "put_nowait": lambda r, a: put_now(r, a[0], a[1]),
        "get": lambda r, a: Coro(lambda: get(r, a[0]), "Queue.get", list(a), {}, None),
        "put": lambda r, a: Coro(lambda: putting(r, a), "Queue.put", list(a), {}, None),
        "empty": lambda r, a: SBool(z3.Not(zbool(r.truth_term(r.getattr_(a[0], "_queue"))))),
        "qsize": lambda r, a: SInt(r.getattr_(a[0], "_queue").length(r)),
        "full": lambda r, a: r.fresh("full", "bool"),
        "task_done": lambda r, a: r.event("task_done"),
        "_wakeup_next": lambda r, a: r.event("wake", a[1]),
        "_get": lambda r, a: r.call(r.getattr_(r.getattr_(a[0], "_queue"), "popleft"), [], {}),
        "_put": lambda r, a: r.call(r.getattr_(r.getattr_(a[0], "_queue"), "append"), [a[1]], {}),
        "__init__": lambda r, a: c.queue_init(r, a),
    }

    def putting(r, a):
        r.rely()
        if r.fork("room comes", "the writer is cancelled") == 1:
            r.raise_("CancelledError")
        c.queue_rely(r)
        r.event("put", a[1])
        r.call(r.getattr_(a[0], "_put"), [a[1]], {})

    old = run.hooks.get("ext_call")

    def ext_call(r, f, a, k):
        p = f.path.split(".")
        if len(p) >= 2 and p[-2] in ("Queue", "_Queue") and p[-1] in table:
            if k:
                names = {"put_nowait": ["item"], "put": ["item"]}.get(p[-1], [])
                a = list(a) + [k[n] for n in names if n in k]
            return table[p[-1]](r, a)
        return old(r, f, a, k) if old else UNSET

    run.hooks["ext_call"] = ext_call
    run.hooks["super"] = to_external


def to_external(run, s, name, exts):
    """super().name of an external base is a call of that base's function"""
    for c in exts:
        if isinstance(c.pyobj, type) and name in c.pyobj.__dict__ and c.pyobj is not object:
            return Bound(Ext(c.path + "." + name, c.pyobj.__dict__[name]), s.o)
    return UNSET


def local_lists(run, fr):
    """the lists the code at hand has: locals of the frame, and the one a comprehension is making"""
    out = []
    e = fr.env
    while e is not None:
        if getattr(e, "vars", None) is not None:
            for n, v in e.vars.items():
                if isinstance(v, ListObj):
                    out.append(v)
        if not getattr(e, "is_comp", False):
            break
        e = e.parent
    if run.consumers and isinstance(run.consumers[-1][0], ListObj):
        out.append(run.consumers[-1][0])
    return out


def seq_of(run, l):
    return l.seq if l.items is None else whole(run, l)
