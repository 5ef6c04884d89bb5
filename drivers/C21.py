"""waiters of one shared computation: starting, leaving and the computation ending, in every order"""
import weakref

from a_sync._smart import SmartFuture, SmartTask, create_future, shield, smart_task_factory

from drivers.lib import *

SPACE = "all sequences of length n over {a task starts waiting through the shield / directly, waiter i leaves, the computation returns / raises / is cancelled, the loop runs one step}, settled after every step or not, for smart futures, smart tasks and plain tasks; numbers of waiters and priorities after every step; futures kept by a queue"


class Boom(Exception):
    pass


class Comp:
    def __init__(self, kind):
        self.kind = kind
        loop = asyncio.get_running_loop()
        self.gate = loop.create_future()
        self.value, self.error = object(), Boom("e")

        async def body():
            r = await asyncio.shield(self.gate)
            if r == "raise":
                raise self.error
            return self.value

        if kind == "future":
            self.c = create_future()
        elif kind == "smarttask":
            self.c = SmartTask(body(), loop=loop)
        else:
            self.c = asyncio.Task(body(), loop=loop)
        self.state = None

    def finish(self, how):
        if self.state is not None or self.c.done():
            return
        self.state = how
        if how == "cancel":
            self.c.cancel()
        elif self.kind == "future":
            if how == "raise":
                self.c.set_exception(self.error)
            else:
                self.c.set_result(self.value)
        elif not self.gate.done():
            self.gate.set_result(how)

    def want(self):
        return {"return": ("ok", self.value), "raise": ("exc", self.error), "cancel": ("cancelled",)}[self.state]


async def fate(aw):
    try:
        return ("ok", await aw)
    except asyncio.CancelledError:
        return ("cancelled",)
    except Boom as e:
        return ("exc", e)


def player(kind, eager, factory):
    async def play(ops):
        loop = asyncio.get_running_loop()
        loop.set_task_factory(smart_task_factory if factory else None)
        try:
            await play_(ops)
        finally:
            loop.set_task_factory(None)

    async def play_(ops):
        comp = Comp(kind)
        other = create_future()
        ow = [asyncio.ensure_future(fate(shield(other)))]
        tasks, left = [], []

        async def waiter(direct):
            if direct:
                return await fate(comp.c)
            return await fate(shield(comp.c))

        for op in ops + ("end",):
            if op in ("W", "D"):
                t = asyncio.ensure_future(waiter(op == "D"))
                tasks.append(t)
                left.append(False)
                t.direct = op == "D"
            elif op[0] == "X":
                i = int(op[1])
                if i < len(tasks) and not tasks[i].done() and not tasks[i].direct and not left[i]:
                    tasks[i].cancel()
                    left[i] = True
            elif op in ("return", "raise", "cancel"):
                comp.finish(op)
            elif op == ".":
                await asyncio.sleep(0)
            elif op == "end":
                await ticks(8)
            if eager:
                await ticks(8)
                live = sum(1 for t, l in zip(tasks, left) if not l and not t.done())
                if comp.state is None:
                    check(not comp.c.done(), "the computation ended because a waiter left")
                    for i, t in enumerate(tasks):
                        check(t.done() == left[i], f"waiter {i} is {'done' if t.done() else 'still waiting'}")
                    if kind != "plain":
                        eq(comp.c.num_waiters, live, "number of waiters")
                        if kind == "future":
                            eq(comp.c < other, live > 1, "priority")
                            eq(other < comp.c, 1 > live, "priority of the other")
                elif kind != "plain":
                    eq(comp.c.num_waiters, 0, "waiters of a finished computation")
        if comp.state is None:
            check(not comp.c.done(), "the computation ended because a waiter left")
            comp.finish("return")
            await ticks(8)
        check(comp.c.done(), "the computation did not end")
        for i, t in enumerate(tasks):
            check(t.done(), f"waiter {i} still waits for a finished computation")
            got = ("cancelled",) if t.cancelled() else t.result()
            if left[i] and got[0] == "cancelled":
                continue
            want = comp.want()
            check(got[0] == want[0] and (len(got) == 1 or got[1] is want[1]), f"waiter {i} got {got} not {want}")
        check(not ow[0].done(), "a waiter of another computation ended")
        other.set_result(1)
        await ticks(3)
        await reap(tasks + ow)

    return play


def queue_cases():
    class Q:
        def __init__(self):
            self._futs = weakref.WeakValueDictionary()

    for how in ("return", "raise", "cancel"):
        for own in (True, False):

            def thunk(how=how, own=own):
                async def main():
                    q = Q()
                    f = create_future(queue=q, key="k")
                    o = create_future(queue=q, key="o")
                    q._futs["o"] = o
                    q._futs["k"] = f
                    g = create_future(queue=q, key="k")
                    if not own:
                        q._futs["k"] = g
                    w = asyncio.ensure_future(fate(shield(f)))
                    await ticks(3)
                    eq(f.num_waiters, 1, "waiters")
                    if how == "return":
                        f.set_result(1)
                    elif how == "raise":
                        f.set_exception(Boom())
                    else:
                        f.cancel()
                    await ticks(4)
                    check("o" in q._futs and q._futs["o"] is o, "another key's future left the queue")
                    if own:
                        check("k" not in q._futs, "a finished future keeps its place in the queue")
                    else:
                        check(q._futs.get("k") is g, "a finished future removed another's place in the queue")
                    check(w.done(), "the waiter still waits")
                    # shield of a finished computation: its outcome at once
                    r = await fate(shield(f))
                    eq(r[0], {"return": "ok", "raise": "exc", "cancel": "cancelled"}[how], "shield of a finished computation")

                run(main)

            yield f"queue:{how}:{'own' if own else 'replaced'}", thunk


def cases(tier):
    yield from queue_cases()
    n = 5 if tier == "quick" else 6
    alphabet = ("W", "D", "X0", "X1", "return", "raise", "cancel", ".")

    def some(ops):  # at most one end, something to wait for
        return ops[0] in "WD" and sum(o in ("return", "raise", "cancel") for o in ops) <= 1

    for kind in ("future", "smarttask", "plain"):
        for eager in (True, False):
            for factory in (False, True):
                m = n if factory == (kind == "smarttask") else n - 1
                for name, t in explore(alphabet, m, player(kind, eager, factory), pre=1, only=some):
                    if name[4:] in ("W", "D"):
                        yield f"{kind}:{'settled' if eager else 'racing'}:{'smart' if factory else 'plain'} waiters:{name}", t
