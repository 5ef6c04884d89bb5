"""bulk reads under every short history of puts, reads, cancellations and loop steps, against a queue that is a list"""
import itertools
import random

from a_sync.primitives.queue import Queue

from drivers.lib import *

SPACE = "all histories of 6 (thorough 7) of: put 1 / put 2 / start get_all / get_multi(2), (3), with and without can_return_less / get / cancel the oldest or newest reader / one loop step / get_all_nowait / get_multi_nowait(2), (3, less), bounded and unbounded queues; random histories of 60; counts up to 50 from queues of up to 60"

OPS = ["p", "pp", "a", "m2", "m3", "l3", "g", "x", "y", "t", "A", "M2", "L3"]


class World:
    def __init__(self, maxsize=0):
        self.q = Queue(maxsize)
        self.n = 0
        self.put = []  # all items put
        self.readers = []  # (kind, want, task)
        self.given = []  # lists handed out
        self.several = False  # a reader failed while another one held items: each puts back what it took in front of what is there then

    def items(self):
        return list(self.q._queue)

    async def read(self, kind):
        if kind == "a":
            return await self.q.get_all()
        if kind == "g":
            return [await self.q.get()]
        return await self.q.get_multi(int(kind[1]), can_return_less=kind[0] == "l")

    def nowait(self, kind):
        before = self.items()
        unfinished = self.q._unfinished_tasks
        n = None if kind == "A" else int(kind[1])
        try:
            got = self.q.get_all_nowait() if kind == "A" else self.q.get_multi_nowait(n, can_return_less=kind[0] == "L")
        except asyncio.QueueEmpty:
            check(not before or (kind[0] == "M" and len(before) < n), f"{kind} refuses to read {before}")
            eq(self.items(), before, f"the queue after a refused {kind}")
        else:
            want = before if n is None else before[:n]
            eq(got, want, f"{kind} of {before}")
            check(got and (kind[0] != "M" or len(got) == n), f"{kind} of {before} gives {got}")
            eq(self.items(), before[len(got):], f"the queue after {kind}")
            self.given.append(got)
        eq(self.q._unfinished_tasks, unfinished, f"unfinished work after {kind}")

    def quiet(self):
        """nobody runs: what was put is in the queue, given out, or held by a reader that waits for more"""
        out = [x for g in self.given for x in g]
        held = 0
        for k, t in self.readers:
            check(not t.done(), "")
        have = out + self.items()
        check(len(set(have)) == len(have), f"an item twice: given {self.given}, in the queue {self.items()}")
        check(set(have) <= set(self.put), "an item nobody put")
        missing = len(self.put) - len(have)
        can_hold = sum(int(k[1]) - 1 for k, t in self.readers if k[0] == "m")
        check(missing <= can_hold, f"{missing} items lost: put {self.put}, given {self.given}, in the queue {self.items()}, readers {[k for k, _ in self.readers]}")
        eq(self.q._unfinished_tasks, len(self.put), "unfinished work")
        if self.items():
            check(not self.readers, f"{[k for k, _ in self.readers]} wait though {self.items()} are there")

    def reap(self):
        for k, t in list(self.readers):
            if t.done():
                self.readers.remove((k, t))
                if t.cancelled():
                    continue
                got = t.result()
                check(type(got) is list, f"{got!r}")
                n = len(got)
                check(n >= 1 and (k[0] in "al" or n == (int(k[1]) if k[0] == "m" else 1)) and (k[0] != "l" or n <= int(k[1])), f"{k} gives {got}")
                check(got == sorted(got) or self.several, f"{k} gives {got}: not in queue order")
                self.given.append(got)


async def play(ops, maxsize=0):
    w = World(maxsize)
    multi = False
    for op in ops:
        if op in ("p", "pp"):
            for _ in op:
                try:
                    w.q.put_nowait(w.n)
                except asyncio.QueueFull:
                    continue
                w.put.append(w.n)
                w.n += 1
        elif op == "x" or op == "y":
            live = [t for _, t in w.readers if not t.done()]
            if live:
                w.several |= sum(1 for k, _ in w.readers if k[0] == "m") > 1
                live[0 if op == "x" else -1].cancel()
        elif op == "t":
            await asyncio.sleep(0)
        elif op[0] in "AML":
            held = bool(w.readers)
            w.nowait(op)
        else:
            w.readers.append((op, asyncio.ensure_future(w.read(op))))
        w.reap()
    for _ in range(12):
        await asyncio.sleep(0)
    w.reap()
    w.quiet()
    for _, t in w.readers:
        t.cancel()
    for _ in range(12):
        await asyncio.sleep(0)
    w.reap()
    check(not w.readers, "a cancelled reader goes on")
    rest = w.items()
    left = [x for g in w.given for x in g] + rest
    eq(sorted(left), w.put, "all that was put is given out or in the queue")
    eq(w.q._unfinished_tasks, len(w.put), "unfinished work")
    return w


def ordered(n):
    """one bulk reader at a time: strictly first in, first out, a failed read included"""

    def thunk():
        async def main():
            for less in (False, True):
                for have in range(0, n + 3):
                    for later in range(0, n + 3):
                        for cancel_at in (None, 0, 1, 2):
                            q = Queue()
                            for i in range(have):
                                q.put_nowait(i)
                            t = asyncio.ensure_future(q.get_multi(n, can_return_less=less))
                            k = have
                            for step in range(later + 1):
                                if cancel_at == step:
                                    t.cancel()
                                await ticks(2)
                                if step < later:
                                    q.put_nowait(k)
                                    k += 1
                            await ticks(4)
                            what = f"get_multi({n}, {less}) of {have}, then {later} one by one, cancelled at {cancel_at}"
                            if t.done() and not t.cancelled():
                                got = t.result()
                                check(len(got) == n or less, f"{what}: {got}")
                                eq(got + list(q._queue), list(range(k)), what)
                            else:
                                t.cancel()
                                await ticks(3)
                                eq(list(q._queue), list(range(k)), what + ": nothing is lost")
                            eq(q._unfinished_tasks, k, what)
                            for _ in range(k):
                                q.task_done()
                            await q.join()

        run(main, max_steps=10_000_000)

    return thunk


def nowaits(n):
    def thunk():
        async def main():
            for have in range(0, n + 4):
                for less in (False, True):
                    w = World()
                    for i in range(have):
                        w.q.put_nowait(i)
                    w.nowait(("L" if less else "M") + str(n)) if n < 10 else None
                    if n >= 10:
                        try:
                            got = w.q.get_multi_nowait(n, less)
                        except asyncio.QueueEmpty:
                            check(have < n and not (less and have), "refused")
                            eq(w.items(), list(range(have)), "untouched")
                        else:
                            eq(got, list(range(min(n, have))), "from the front")
                            check(less or len(got) == n, "the number asked for")
                            eq(w.items(), list(range(min(n, have), have)), "the rest")
                w = World()
                for i in range(have):
                    w.q.put_nowait(i)
                w.nowait("A")

        run(main)

    return thunk


def values():
    async def main():
        items = [None, 0, False, "", [], asyncio.QueueEmpty(), asyncio.CancelledError(), ...]
        for f in ("get_all_nowait", "get_all", "get_multi_nowait", "get_multi"):
            for less in (False, True):
                q = Queue()
                for x in items:
                    q.put_nowait(x)
                r = getattr(q, f)(*((len(items), less) if "multi" in f else ()))
                got = await r if asyncio.iscoroutine(r) else r
                check(len(got) == len(items) and all(a is b for a, b in zip(got, items)), f"{f}: {got}")
        for i in (1, 0, -1):
            for f in ("get_multi", "get_multi_nowait"):
                q = Queue()
                q.put_nowait(1)
                try:
                    r = getattr(q, f)(i)
                    if asyncio.iscoroutine(r):
                        r = await r
                except (ValueError, TypeError):
                    pass
                else:
                    eq(len(r), i, f"{f}({i})")
                    continue
                eq(list(q._queue), [1], "a refused read")

    run(main)


def bounded_putters():
    async def main():
        for size in (1, 2, 3):
            for n in (2, 3, 5):
                for f in ("multi", "all"):
                    q = Queue(size)
                    puts = [asyncio.ensure_future(q.put(i)) for i in range(6)]
                    await ticks(2)
                    got = []
                    if f == "multi":
                        got += await q.get_multi(n)
                        eq(len(got), n, "number")
                    while len(got) < 6:
                        got += await q.get_all()
                    eq(got, list(range(6)), f"queue of {size}, {f} {n}")
                    check(all(p.done() for p in puts), "putters are woken")

    run(main)


def rnd(seed):
    def thunk():
        r = random.Random(seed)

        async def main():
            ops = [r.choice(OPS + ["p", "pp", "t", "t"]) for _ in range(60)]
            try:
                await play(ops, r.choice([0, 0, 1, 3]))
            except Bad as e:
                raise Bad(f"{' '.join(ops)}: {e}")

        run(main, max_steps=1_000_000)

    return thunk


def cases(tier):
    yield "values", values
    yield "bounded", bounded_putters
    for n in (2, 3, 5, 50):
        yield f"nowait {n}", nowaits(n)
    for n in (2, 3, 4):
        yield f"in order {n}", ordered(n)
    for s in range(3000 if tier == "thorough" else 300):
        yield f"random {s}", rnd(s)
    small = ["p", "a", "m2", "l3", "g", "x", "t", "L3"]
    yield from explore(small, 6 if tier == "thorough" else 5, play)
