"""writes /verif/properties.jsonl (the single source of the property texts)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

FN = "a_sync/a_sync/function.pyx"; KW = "a_sync/a_sync/_kwargs.pyx"; FL = "a_sync/a_sync/_flags.pyx"
HE = "a_sync/a_sync/_helpers.pyx"; ME = "a_sync/a_sync/method.pyx"; AB = "a_sync/a_sync/abstract.pyx"; BA = "a_sync/a_sync/base.pyx"
PR = "a_sync/a_sync/property.pyx"; MA = "a_sync/a_sync/modifiers/manager.pyx"; SE = "a_sync/primitives/locks/semaphore.pyx"
PS = "a_sync/primitives/locks/prio_semaphore.pyx"; CO = "a_sync/primitives/locks/counter.pyx"; EV = "a_sync/primitives/locks/event.pyx"
QU = "a_sync/primitives/queue.py"; GA = "a_sync/asyncio/gather.pyx"; AC = "a_sync/asyncio/as_completed.pyx"; CT = "a_sync/asyncio/create_task.pyx"
IT = "a_sync/iter.pyx"; TA = "a_sync/task.py"; FU = "a_sync/future.py"; SM = "a_sync/_smart.py"; EX = "a_sync/executor.py"
UI = "a_sync/utils/iterators.py"; UT = "a_sync/utils/__init__.py"; SI = "a_sync/a_sync/singleton.py"; MT = "a_sync/a_sync/_meta.py"
SY = "a_sync/a_sync/modifiers/semaphores.py"; LI = "a_sync/a_sync/modifiers/limiter.py"; MEM = "a_sync/a_sync/modifiers/cache/memory.py"

p("C01", "A call-time sync/asynchronous flag decides the mode of that call, unambiguously",
  "For every call of a dual-mode function or method, a single recognised mode flag in the call's keywords decides whether that call runs synchronously or returns an awaitable, positive and negative spellings being exact opposites, and without a flag the configured default decides. Only the truth of the flag's value counts. Passing more than one recognised flag to a function raises the dedicated too-many-flags error and the wrapped function does not run. Mode flags never reach the wrapped function, and every other keyword reaches it unchanged.",
  ["inputs", "configurations"], "all keyword sets (any subset of the flags with any values plus any other keywords), all defaults",
  "The tests call a handful of functions with one flag at a time; the rule is a statement about every combination of flags, values, extra keywords and defaults.",
  [KW, FL, FN, ME], [("flag lookup and validation", KW), ("flag negation", FL), ("per-call decision", FN + " " + ME)])
p("C02", "Dual-mode wrapping is transparent: one run, same arguments, same outcome",
  "Whatever mode a wrapped function is called in, its body runs exactly once with exactly the positional and (non-flag) keyword arguments the caller passed, and the caller receives exactly the value it returned or exactly the exception it raised (a RuntimeError saying just that the event loop is already running excepted, which stands for the misuse; a bound method refers to its instance weakly, so somebody must hold the instance). This holds for synchronous and coroutine bodies in both call modes.",
  ["inputs", "programs"], "all wrapped functions, all argument tuples and keyword sets, all results and exceptions",
  "Tests wrap a few functions that return small integers; duplication of the call, lost arguments or swallowed exceptions on an unsampled combination of body kind, mode and argument shape stay invisible.",
  [FN, HE, ME], [("sync/async bodies", FN), ("bridging helpers", HE)])
p("C03", "Without a flag, the mode comes from the most specific setting",
  "For a call without a flag, the mode is the function's own default when one was configured, and otherwise follows the kind of function that was wrapped; for a method, an explicitly set method default wins over the mode of the object, and the object's mode is the one its constructor flag gave, or else its class default. A coroutine method called without a flag on an instance whose mode is synchronous returns a plain result and on an asynchronous one an awaitable, for every instance; a plain method without a configured default always returns a plain result.",
  ["configurations", "inputs", "histories"], "all combinations of wrapped kind, configured default, class default, instance flag, and call histories on several instances",
  "The settings interact (function kind, decorator default, class, instance, call); tests cover a few combinations of one or two of them.",
  [FN, ME, AB, BA], [("function default", FN), ("method default", ME), ("instance and class mode", AB + " " + BA)])
p("C04", "A synchronous call inside a running event loop fails loudly, never deadlocks",
  "Calling a wrapped coroutine function synchronously from code that is already running inside an event loop raises the dedicated synchronous-call error immediately and leaves the loop usable. Outside a running loop the same call completes and returns the function's result; a RuntimeError of the function's own, with another message than the loop's, is propagated as it is.",
  ["schedules", "inputs"], "all wrapped coroutine functions, all states of the calling thread's event loop, all exceptions the body can raise",
  "Tests raise one exception in one loop state; the rule distinguishes errors of the loop from equal-typed errors of the user's function.",
  [HE, "a_sync/exceptions.py"], [("bridge to the event loop", HE)])
p("C05", "Call modifiers stack: cache outermost, then concurrency limit, then rate limit",
  "When caching, a concurrency limit and a rate limit are configured together on a coroutine function, a call first consults the cache, then waits for the concurrency limit, then for the rate limit, and only then runs the function, each configured modifier being applied exactly once with its configured value. Modifiers that are not configured add nothing, and the wrapped function's arguments, result and exceptions pass through unchanged, with limits released on every exit.",
  ["configurations", "inputs", "fault_sequences"], "all modifier configurations and all wrapped functions, including failing ones",
  "Tests check single modifiers with timing; the order and once-only application for every configuration is not observable from the sampled durations.",
  [MA, SY, LI, MEM], [("modifier application", MA), ("semaphore wrap", SY), ("limiter wrap", LI), ("cache wrap", MEM)])
p("C06", "A semaphore never over-admits, never loses a permit, and wakes waiters in order",
  "At every moment the number of holders of a semaphore is at most its initial value, whatever interleaving of acquisitions, releases and cancellations happened before; permits are neither lost nor invented, so once all holders have released, the full initial number can be acquired again. As long as a permit is free no live waiter stays blocked forever, and blocked waiters are admitted in the order they arrived.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of tasks acquiring, releasing and being cancelled at any await point",
  "Cancellation while waiting and release racing with a newly arriving acquirer need specific interleavings; tests run a few tasks to completion.",
  [SE], [("acquire/release/wake-up", SE)], [("value", "free permits", SE), ("waiters", "queue of blocked acquirers", SE)])
p("C07", "A priority semaphore admits the best-priority waiter and conserves permits",
  "When a permit of a priority semaphore becomes free while several acquirers wait, the permit goes to a live waiter of the numerically best (lowest) priority, and to the longest-waiting one among equals. The number of holders never exceeds the initial value and no permit is lost under any interleaving of acquisitions at any priorities, releases and cancellations.",
  ["schedules", "histories", "inputs"], "all interleavings and priorities, including cancellations of waiters",
  "Depends on who waits at which priority when a permit frees and on which waiters were cancelled meanwhile; tests check one order of a few priorities.",
  [PS, SE], [("priority wake-up", PS)], [("context managers by priority", "one wait queue per priority", PS)])
p("C08", "A counter lock releases exactly the waiters whose target has been reached, once",
  "A task waiting on a counter lock for a value resumes only after the counter has been at or above that value, and setting the counter wakes every waiter whose target is reached and none whose target is not. The counter never decreases: an attempt to lower it raises an error and changes nothing.",
  ["histories", "schedules", "inputs"], "all sequences of waits and counter changes, for all integer targets",
  "A statement about every set of pending targets and every new value; tests use two or three waiters.",
  [CO], [("set and notify", CO)], [("events by value", "pending targets", CO)])
p("C09", "An event wakes every waiter exactly when it is set",
  "A task waiting on the event resumes only if the event has been set, waiting on an already set event returns immediately, and setting it resumes every task waiting at that moment. Clearing the event affects only later waits, and cancelling one waiter disturbs no other.",
  ["schedules", "histories"], "all interleavings of wait, set, clear and cancellation",
  "Interleavings of clear and cancellation with pending wake-ups are not reached by the tests.",
  [EV], [("wait/set", EV)])
p("C10", "Bulk queue reads return each item exactly once, in order, none lost",
  "Reading several items at once from the queue (waiting or not, all or a fixed number, allowing fewer or not) hands out items that were put, each exactly once and in queue order, with the number of items the caller asked for unless fewer were allowed. A bulk read that fails leaves every item in the queue and the count of unfinished work unchanged.",
  ["histories", "inputs", "schedules"], "all queue contents, all requested counts, all interleavings of producers and consumers",
  "Tests read two or three items from a prefilled queue; loss, duplication or reordering at other sizes and interleavings is not observed.",
  [QU], [("bulk reads", QU)])
p("C11", "A processing queue runs every submitted item once and delivers its own outcome",
  "Every item put into a processing queue is processed by the worker function exactly once with the arguments it was put with, and the future returned for it receives exactly that call's result or exception. At most the configured number of items is processed at a time, a failing, cancelled or abandoned item never stops the processing of the others, and the queue's completion count matches the processed items.",
  ["histories", "schedules", "fault_sequences"], "all sequences of submissions, all worker outcomes (result, exception, cancellation), abandoned futures, all interleavings of the workers",
  "Crossing of results between concurrent workers and survival after failure of arbitrary items need histories the tests do not produce.",
  [QU], [("worker loop", QU)])
p("C12", "Smart and priority processing queues deduplicate and order without mixups",
  "While an item is pending, submitting equal arguments again to a smart queue returns a future with the same outcome without a second execution, and after it finished a new submission runs again (an item whose future nobody holds any more may be skipped); distinct arguments never share an outcome. A priority processing queue starts the waiting item with the best priority first, and equal priorities in submission order whatever the arguments are, each future receiving its own item's outcome.",
  ["histories", "schedules", "inputs"], "all sequences of submissions with equal or different arguments and priorities and all outcomes",
  "Depends on duplicates arriving in each state of the first submission and on arguments that cannot be compared with each other.",
  [QU, SM], [("argument-keyed futures and priority order", QU)])
p("C13", "gather returns every result in input order, mappings by key, filtered as asked",
  "Gathering awaitables returns their results in input order, and gathering a mapping returns a mapping with exactly the same keys, each with the result of its own awaitable, whatever order they complete in. With an exclusion predicate exactly the results it rejects are left out, and without exception-returning the first failure propagates while with it exceptions appear as results in their own position.",
  ["inputs", "schedules"], "all lists and mappings of awaitables, all completion orders, results, predicates and failures",
  "Tests gather a few coroutines that finish in order.",
  [GA], [("gather and exclusion", GA)])
p("C14", "as_completed yields each outcome exactly once and keeps keys attached",
  "Iterating completed awaitables yields every outcome exactly once, in completion order, and for a mapping each result comes paired with the key of its own awaitable. A failing awaitable raises its own exception, or appears as a value when exceptions are to be returned, and a timeout of any length, fractions included, is honoured.",
  ["inputs", "schedules"], "all lists and mappings of awaitables, all completion orders, failures and timeouts",
  "Tests use equal sleeps and no fractional timeout.",
  [AC], [("as_completed and mapping variant", AC)])
p("C15", "create_task runs any awaitable once; persisted tasks never disturb other callers",
  "Creating a task from any awaitable yields a task that runs it exactly once and ends with exactly its result, exception or cancellation (a RuntimeError of an awaitable that is no coroutine may arrive wrapped in another one). A task created to be persisted is kept alive until it is done and is let go afterwards, and whatever way persisted tasks end, creating further tasks never fails or raises their outcome in an unrelated caller.",
  ["histories", "fault_sequences", "inputs"], "all kinds of awaitables, all histories of persisted tasks ending in result, exception or cancellation",
  "The interaction appears only in later calls after an earlier persisted task ended in a particular way.",
  [CT], [("task creation and pruning", CT)], [("persisted tasks", "strong references to running tasks", CT)])
p("C16", "Dual iterators yield the source's items; filter and sort are exact in both modes",
  "Iterating a dual-mode iterator, synchronously or asynchronously, yields exactly the items of its source in order and ends or raises as the source does. Filtering yields exactly the items for which the predicate is truthy, in order; sorting yields a stable permutation ordered by the key (or reversed), with every predicate and key, synchronous or asynchronous, evaluated once per item.",
  ["inputs", "programs"], "all sources (sync or async), all predicates and keys (sync or async), all lengths",
  "Tests iterate ten integers with one predicate or key.",
  [IT], [("iterator, filter and sorter", IT)])
p("C17", "Merging async iterators yields each source's items once, in that source's order",
  "Iterating several asynchronous iterators as one yields every item of every source exactly once, items of one source in that source's order, and stops only after all sources have ended. If a source fails, its exception reaches the consumer after the items it had yielded before, and exhausting an iterator consumes it to the end.",
  ["schedules", "inputs", "fault_sequences"], "all numbers and lengths of sources, all interleavings, all failure points",
  "The interleaving of the sources and the point of failure decide; tests use three well-behaved sources.",
  [UI], [("merging and exhausting", UI)])
p("C18", "A task mapping runs its function once per key and keeps results with their keys",
  "A task mapping runs the mapped function exactly once for every key it is given or asked for, however often the key is used and from how many tasks (until the key is popped), and every way of consuming the mapping pairs each key with the result of its own run. Iterating it yields every key of its source exactly once and ends only when all of them are done.",
  ["histories", "schedules", "inputs"], "all key sources (sync, async, several), all interleavings of direct access and iteration, all outcomes",
  "Once-per-key under interleaved access and keyed pairing under arbitrary completion orders are sampled with ten keys that complete in order.",
  [TA], [("start and lookup of tasks", TA)], [("tasks by key", "one task per key", TA)])
p("C19", "Aggregates over a task mapping equal the aggregate of its results",
  "any, all, sum, min and max over a task mapping return what the built-in of the same name returns for the mapping's results in the order they complete, including a mapping over an empty source where that is defined, and short-circuiting never changes the answer. Popping consumes the mapping and not popping leaves it usable.",
  ["inputs", "histories"], "all keys and results, both pop modes",
  "Tests aggregate one small mapping each.",
  [TA], [("aggregates", TA)])
p("C20", "An expression over futures evaluates to the same expression over their results",
  "Arithmetic, comparison, indexing, attribute access and conversion applied to a lazily awaited future give what the same operation gives on the awaited results (for conversions and equality, which answer at once: when no event loop is running, or the future is done), with operand order preserved, including reflected operators and futures on either or both sides. A future's coroutine runs once however often and by however many tasks the future is used, and its exception reaches every user.",
  ["inputs", "schedules"], "all operators, all operand values on either side, plain or future, all usage counts and interleavings",
  "Forty operators with two operand positions each: an operand swap or wrong operator on one of them is not visible in the tests' commutative samples.",
  [FU], [("operators and materialisation", FU)])
p("C21", "A shared smart future serves every waiter; cancelling one spares the others",
  "When several tasks wait, each through the shield, for one shared pending computation, each receives its outcome, and a waiter that is cancelled stops waiting without cancelling the computation for the others. Priority between shared computations follows the number of live waiters, which goes up when a task starts waiting and down when it stops for any reason.",
  ["schedules", "fault_sequences"], "all numbers of waiters and all interleavings of waiting, cancellation and completion",
  "Needs cancellation of a particular waiter while others are still waiting.",
  [SM], [("waiter tracking and shielding", SM)], [("waiters", "tasks currently waiting", SM)])
p("C22", "A cached asynchronous property is computed once per instance",
  "However many times and by however many concurrent tasks a cached dual-mode property of an instance is read, its function succeeds at most once per instance and all readers get that same value; instances never share values. A failed computation reaches the readers waiting for it (its message may be extended by the property's name) and is not remembered as the property's value.",
  ["schedules", "histories", "fault_sequences"], "all numbers of concurrent readers and instances, all interleavings, failing computations",
  "Concurrency of first reads and failure followed by retry are not exercised.",
  [PR], [("cached getter", PR)])
p("C23", "A dual-mode singleton class has at most one instance per mode",
  "Repeated construction of a singleton class in one mode always returns the same object, and its synchronous and asynchronous instances are different objects, each in its own mode; subclasses never share an instance with their parent. The initialiser runs once per stored instance, and concurrent construction from several threads still gives a single instance.",
  ["histories", "inputs", "schedules"], "all construction sequences over all classes and modes",
  "Depends on the history of constructions over several classes and on flags given by keyword.",
  [MT, SI], [("instance table", MT)])
p("C24", "An executor runs a submitted callable once and hands back its outcome",
  "Running or submitting a callable on any of the executors executes it exactly once with the given arguments and returns exactly its result or raises exactly its exception, whatever the number of worker threads, including the synchronous fallback mode. Idle worker threads may be pruned, but never so that a submitted call is left unexecuted.",
  ["inputs", "schedules", "configurations"], "all callables, arguments, outcomes, pool sizes (including zero), idle times",
  "Pruning of idle threads racing with new submissions and the fallback mode with failures are not covered.",
  [EX], [("run/submit and thread pruning", EX)])
p("C25", "Asynchronous any and all agree with the built-ins for every completion order",
  "The asynchronous any returns true exactly when some awaited value is truthy and the asynchronous all exactly when every awaited value is truthy, for every number of awaitables including none and every order in which they complete.",
  ["inputs", "schedules"], "all lists of awaitables, all truthiness patterns, all completion orders",
  "Tests use three awaitables.",
  [UT], [("any/all", UT)])
p("C26", "A thread-safe semaphore gives every thread its own independent, correct limit",
  "Each thread using a shared thread-safe semaphore is limited to the configured number of concurrent holders of its own, using it in one thread never blocks, releases or breaks another thread, and within one thread all ways of acquiring and releasing act on that same limit. Its inspection functions (length, representation) work in every state.",
  ["schedules", "histories", "configurations"], "all numbers of threads and all per-thread histories of acquire, release and context use",
  "Cross-thread effects need several threads with their own event loops; tests use one.",
  [SY, "a_sync/a_sync/modifiers/semaphores.py", SE], [("per-thread semaphores", SE)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
