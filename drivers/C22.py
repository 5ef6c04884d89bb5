"""readers of one cached property of one instance: starting, leaving, the computation ending, in every order"""
import threading

import a_sync
from a_sync import ASyncGenericBase
from a_sync.a_sync.property import a_sync_cached_property

from drivers.lib import *

SPACE = "all sequences of length n over {a reader starts (attribute / hidden method), reader i is cancelled, the computation returns / raises, the loop runs one step}, settled after every step or not, coroutine and slotted classes; two instances; sync reads, hidden method in both modes, plain functions, falsy values"


class Boom(Exception):
    pass


def make(sync=False, is_coro=True, default=None):
    dec = a_sync_cached_property if default is None else a_sync_cached_property(default)

    class K(ASyncGenericBase):
        def __init__(self):
            ASyncGenericBase.__init__(self)
            self.sync = sync
            self.runs, self.gates, self.ok = 0, [], 0

        if is_coro:

            @dec
            async def p(self):
                self.runs += 1
                g = asyncio.get_running_loop().create_future()
                self.gates.append(g)
                v = await g
                if isinstance(v, BaseException):
                    raise v
                self.ok += 1
                return v

            @a_sync_cached_property
            async def q(self):
                return "q"

        else:

            @dec
            def p(self):
                self.runs += 1
                v = self.plan.pop(0)
                if isinstance(v, BaseException):
                    raise v
                self.ok += 1
                return v

    return K()


async def fate(aw):
    try:
        return ("ok", await aw)
    except asyncio.CancelledError:
        return ("cancelled",)
    except Boom as e:
        return ("exc", e)


async def bystander(o):
    return await o.p


def player(eager):
    async def play(ops):
        o, o2 = make(), make()
        n2 = asyncio.ensure_future(fate(bystander(o2)))
        await ticks(4)
        check(o2.runs == 1, "the other instance's function did not run")
        tasks, kind, joined = [], [], []
        values, errors = [], []
        serial = 0
        for op in ops + ("end",):
            if op in ("R", "H"):

                async def reader(op=op):
                    if op == "R":
                        return await o.p
                    return await o.__p__()

                tasks.append(asyncio.ensure_future(fate(reader())))
                joined.append(None)
            elif op[0] == "X":
                i = int(op[1])
                if i < len(tasks) and not tasks[i].done():
                    tasks[i].cancel()
                    joined[i] = "left"
            elif op in ("return", "raise"):
                g = [g for g in o.gates if not g.done()]
                if g:
                    serial += 1
                    if op == "return":
                        v = ["value", serial] if serial > 1 else 0
                        values.append(v)
                        g[0].set_result(v)
                    else:
                        e = Boom(serial)
                        errors.append(e)
                        g[0].set_result(e)
            elif op == ".":
                await asyncio.sleep(0)
            else:
                await ticks(12)
            if eager:
                await ticks(12)
            check(len([g for g in o.gates if not g.done()]) <= 1, "two computations run at a time")
            check(o.ok <= 1, "the function succeeded twice")
        # let everything end
        for _ in range(4):
            g = [g for g in o.gates if not g.done()]
            if not g:
                break
            serial += 1
            v = ["last", serial]
            values.append(v)
            g[0].set_result(v)
            await ticks(12)
        check(o.ok <= 1, "the function succeeded twice")
        for i, t in enumerate(tasks):
            check(t.done(), f"reader {i} never ends")
            r = ("cancelled",) if t.cancelled() else t.result()
            if joined[i] == "left":
                if r[0] == "cancelled":
                    continue
            check(r[0] != "cancelled", f"reader {i} was cancelled although nobody cancelled it")
            if r[0] == "ok":
                check(values and r[1] is values[-1] and o.ok == 1, f"reader {i} got {r[1]!r}, the property's value is {values}")
            else:
                check(any(r[1] is e for e in errors), f"reader {i} got a failure of nobody's")
        runs = o.runs
        if o.ok:
            eq(await fate(bystander(o)), ("ok", values[-1]), "a later read")
            eq(o.runs, runs, "runs after a later read")
        else:
            t = asyncio.ensure_future(fate(bystander(o)))
            await ticks(6)
            check(o.runs == runs + 1, "a failed computation was remembered")
            o.gates[-1].set_result("v")
            eq(await t, ("ok", "v"), "a read after failures")
            eq(await fate(bystander(o)), ("ok", "v"), "a later read")
            eq(o.runs, runs + 1, "runs")
        check(not n2.done(), "the other instance got a value")
        eq(o2.runs, 1, "the other instance's runs")
        eq(await o.q, "q", "another property")
        o2.gates[0].set_result("two")
        eq(await n2, ("ok", "two"), "the other instance's value")

    return play


def sync_cases():
    for default in (None, "sync"):
        for is_coro in (True, False):
            for plan in ([0], [None], [Boom(), []], [Boom(), Boom(), "x"]):

                def thunk(default=default, is_coro=is_coro, plan=plan):
                    class K(ASyncGenericBase):
                        def __init__(self):
                            ASyncGenericBase.__init__(self)
                            self.sync = True
                            self.runs = 0
                            self.plan = list(plan)

                        dec = a_sync_cached_property if default is None else a_sync_cached_property(default)

                        if is_coro:

                            @dec
                            async def p(self):
                                self.runs += 1
                                await asyncio.sleep(0)
                                v = self.plan.pop(0)
                                if isinstance(v, Exception):
                                    raise v
                                return v

                        else:

                            @dec
                            def p(self):
                                self.runs += 1
                                v = self.plan.pop(0)
                                if isinstance(v, Exception):
                                    raise v
                                return v

                        del dec

                    loop = asyncio.new_event_loop()
                    asyncio.set_event_loop(loop)
                    try:
                        for kind in ("attr", "hidden", "async"):
                            o, o2 = K(), K()

                            def read(o=o):
                                if kind == "attr":
                                    return o.p
                                if kind == "hidden":
                                    return o.__p__(sync=True)
                                return loop.run_until_complete(o.__p__(sync=False))

                            for n, v in enumerate(plan):
                                if isinstance(v, Exception):
                                    try:
                                        read()
                                    except Boom as e:
                                        check(e is v, "another's failure")
                                    else:
                                        raise Bad("a failed computation gave a value")
                                    eq(o.runs, n + 1, "runs")
                            for _ in range(3):
                                check(read() is plan[-1], "the value")
                            check(o.p is plan[-1], "the value by attribute")
                            eq(o.runs, len(plan), "runs")
                            eq(o2.runs, 0, "runs of the other instance")
                    finally:
                        loop.close()
                        asyncio.set_event_loop(None)

                yield f"sync:{default}:{'coroutine' if is_coro else 'plain'}:{len(plan)}:{plan[-1]!r}", thunk


def cancelled_inside():
    """the function itself raises CancelledError; readers time out"""

    async def main():
        runs = []

        class K(ASyncGenericBase):
            def __init__(self):
                ASyncGenericBase.__init__(self)
                self.sync = False

            @a_sync_cached_property
            async def p(self):
                runs.append(1)
                if len(runs) == 1:
                    raise asyncio.CancelledError
                await asyncio.sleep(5)
                return "v"

        o = K()
        r = await asyncio.gather(fate(bystander(o)), fate(bystander(o)))
        eq([x[0] for x in r], ["cancelled", "cancelled"], "readers of a cancelled computation")
        try:
            await asyncio.wait_for(bystander(o), 1)
        except asyncio.TimeoutError:
            pass
        else:
            raise Bad("no timeout")
        eq(await asyncio.gather(bystander(o), bystander(o)), ["v", "v"], "readers after another's timeout")
        eq(len(runs), 2, "runs")

    run(main)


def cases(tier):
    yield from sync_cases()
    yield "cancelled inside", cancelled_inside
    n = 5 if tier == "quick" else 7
    for eager in (True, False):
        for name, t in explore(("R", "H", "X0", "X1", "return", "raise", "."), n - (1 if eager else 0), player(eager), pre=2, only=lambda ops: ops[0] in "RH"):
            if name[4] in "RH":
                yield f"{'settled' if eager else 'racing'}:{name}", t
