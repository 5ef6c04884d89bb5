"""singletons constructed in both modes, in class hierarchies, from several threads"""
import itertools
import sys
import threading

from a_sync.a_sync.singleton import ASyncGenericSingleton

from drivers.lib import *

SPACE = "all sequences of length n over constructions of a class, its subclass and an unrelated class in both modes, by keyword, positionally or by default, some failing; threads constructing at the same time with the initialiser held at a barrier; initialisers constructing the counterpart"


class Boom(Exception):
    pass


def family(style):
    log = []

    class Base(ASyncGenericSingleton):
        fail = False

    if style == "sync":

        def init(self, sync=True, x=None):
            ASyncGenericSingleton.__init__(self)
            self.sync = sync
            log.append((type(self), sync))
            if Base.fail:
                raise Boom

        class K(Base):
            __init__ = init

        mk = {True: [lambda c: c(), lambda c: c(True), lambda c: c(sync=True, x=1)], False: [lambda c: c(sync=False), lambda c: c(False), lambda c: c(False, 3)]}
    elif style == "asynchronous":

        def init(self, x=None, *, asynchronous=True):
            ASyncGenericSingleton.__init__(self)
            self.asynchronous = asynchronous
            log.append((type(self), not asynchronous))
            if Base.fail:
                raise Boom

        class K(Base):
            __init__ = init

        mk = {True: [lambda c: c(asynchronous=False), lambda c: c(1, asynchronous=False)], False: [lambda c: c(), lambda c: c(asynchronous=True), lambda c: c(2)]}
    else:  # the class says so

        def init(self, x=None):
            ASyncGenericSingleton.__init__(self)
            log.append((type(self), type(self).sync))
            if Base.fail:
                raise Boom

        class K(Base):
            sync = style == "class sync"
            __init__ = init

        mk = {K.sync: [lambda c: c(), lambda c: c(3)]}

    class Sub(K):
        pass

    class K2(Base):
        __init__ = K.__init__
        if "sync" in K.__dict__:
            sync = K.sync

    return Base, [K, Sub, K2], mk, log


def player(style):
    Base, classes, mk, log = family(style)
    ops = [(c, m, i, f) for c in range(3) for m in mk for i in range(len(mk[m])) for f in ((False, True) if i == 0 else (False,))]

    def play(seq):
        Base, classes, mk, log = family(style)
        have = {}
        for c, m, i, fail in seq:
            Base.fail = fail
            n = len(log)
            cls = classes[c]
            try:
                o = mk[m][i](cls)
            except Boom:
                check(fail and (c, m) not in have, "a construction failed")
                check(len(log) == n + 1, "initialiser runs")
                continue
            if (c, m) in have:
                check(o is have[(c, m)], "another object for the same mode")
                check(len(log) == n, "the initialiser ran again")
            else:
                check(not fail, "a failed initialiser gave an instance")
                check(len(log) == n + 1 and log[-1] == (cls, m), f"initialiser runs: {log[n:]}")
                check(type(o) is cls, f"an instance of {type(o)}")
                check(all(o is not p for p in have.values()), "one object for two classes or modes")
                have[(c, m)] = o
            check(o.__a_sync_instance_should_await__ is m or o.__a_sync_instance_should_await__ == m, f"the {'sync' if m else 'async'} instance is in the other mode")

    return ops, play


def threads(n, modes, fail_first):
    log, objs, errs = [], [], []
    inside = threading.Semaphore(0)
    go = threading.Event()

    class K(ASyncGenericSingleton):
        def __init__(self, sync=True):
            ASyncGenericSingleton.__init__(self)
            self.sync = sync
            log.append(sync)
            inside.release()
            go.wait(5)
            if fail_first and len(log) == 1:
                raise Boom

    def work(m):
        try:
            objs.append((m, K(sync=m)))
        except Boom:
            errs.append(m)

    ts = [threading.Thread(target=work, args=(m,), daemon=True) for m in modes]
    for t in ts:
        t.start()
    inside.acquire(timeout=5)
    time_ = __import__("time")
    time_.sleep(0.02)
    go.set()
    for t in ts:
        t.join(10)
        check(not t.is_alive(), "a construction never ends")
    for m in set(modes):
        os_ = {id(o) for mm, o in objs if mm == m}
        check(len(os_) == 1 or (fail_first and not os_), f"{len(os_)} instances for one mode")
        for mm, o in objs:
            if mm == m:
                check(K(sync=m) is o, "a later construction gives another object")
    check(len(log) == len({m for m, o in objs}) + len(errs), f"initialiser ran {len(log)} times")


def counterpart():
    class K(ASyncGenericSingleton):
        def __init__(self, sync=True):
            ASyncGenericSingleton.__init__(self)
            self.sync = sync
            if sync:
                self.other = K(sync=False)

    box = []
    t = threading.Thread(target=lambda: box.append(K()), daemon=True)
    t.start()
    t.join(5)
    check(not t.is_alive(), "constructing the counterpart in the initialiser deadlocks")
    check(box[0].other is K(sync=False) and box[0] is K() and box[0] is not box[0].other, "the counterpart")


def cases(tier):
    yield "counterpart", counterpart
    sw = sys.getswitchinterval()
    for n in (2, 3, 5):
        for k in range(n + 1):
            for ff in (False, True):
                yield f"threads:{n}:{k}:{ff}", lambda n=n, k=k, ff=ff: threads(n, [True] * k + [False] * (n - k), ff)
    n = 3 if tier == "quick" else 4
    for style in ("class sync", "class async", "asynchronous", "sync"):
        ops, play = player(style)

        def all_(first, style=style, play=play, ops=ops):
            def f():
                for rest in itertools.product(ops, repeat=n - 1):
                    seq = (first,) + rest
                    try:
                        play(seq)
                    except Bad as e:
                        raise Bad(f"{seq}: {e}")

            return f

        for o in ops:
            yield f"{style}:{o}", all_(o)
