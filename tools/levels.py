DONE = {
 "C01": ("proof", "all calls of a_sync(...)-wrapped functions (any arguments, flag values, loop states) symbolically; methods of user classes (six ways an object gets its mode) likewise"),
 "C02": ("proof", "as C01; argument identity, single run and outcome identity for every call"),
 "C04": ("proof", "every synchronous call of a wrapped coroutine function, with the event loop running or not; methods of user classes likewise; properties concretely, by the driver"),
 "C03": ("proof", "functions and methods x defaults x six ways an object gets its mode, any flag/default values and arguments, two calls each; class hierarchies, properties and collected classes concretely, by the driver"),
 "C05": ("proof", "every subset of cache, semaphore and rate limit as composed by the decorators, any arguments and outcomes; the cache, limiter and semaphore by their contracts"),
 "C07": ("proof", "acquire, release from every state satisfying the invariant, any number of waiters and priorities"),
 "C15": ("proof", "create_task and its C-level entries for every awaitable kind, persisted or not, from any contents of the persisted set in any states"),
 "C24": ("proof", "run/submit of the three executor classes for any number of workers, arguments and outcomes; the pruning pool's worker loop and thread adjustment by inductive accounting invariants over any number of threads, calls and interleavings of their atomic steps"),
 "C26": ("proof", "every operation from any state of any number of threads; the per-thread semaphores by C06's contract"),
 "C06": ("proof", "acquire, release, locked, decorate from every state satisfying the invariant (any value, queue, holders), inductive over all interleavings at suspension points"),
 "C08": ("proof", "set, wait_for from every state satisfying the invariant, any number of targets; Event by its contract (C09)"),
 "C09": ("proof", "wait, set, clear from every reachable state, any number of waiters"),
    "C21": ("proof", "shield, awaiting, finishing and leaving from every state of the set of waiters, every outcome; num_waiters over up to three waiters of each kind (its loop is a sum over a set, bounded)"),
    "C22": ("proof", "every read form from every state satisfying the invariant (any number of readers, computations and instances), inductive over suspension points; async_property's installed source verified along"),
    "C23": ("proof", "construction of a singleton with its mode given in five ways, any flag values, any part of the instances existing, other threads interfering whenever the lock is free"),
    "C20": ("proof", 'every operator, operand position, conversion; arbitrary operand values and outcomes, operands awaited before or not; awaiting from every state a user can find (other users before, meanwhile, done)'),
    "C13": ("proof", 'any number of awaitables (known at a generic one), every outcome, predicate answer and combination of options; mappings and argument lists'),
    "C14": ("proof", 'any number of awaitables (known at a generic one), every outcome and combination of options, any timeout'),
    "C25": ("proof", 'any number of awaitables (known at a generic one), every value and outcome'),
    "C16": ("proof", 'any number of items, any source (sync/async, failing or not), predicates and keys sync / coroutine / awaitable'),
    "C17": ("proof", 'any number of sources of any length, failing or not, any interleaving of puts with the consumer'),
    "C10": ("proof", 'any queue contents, any count, any interleaving at the suspension points'),
    "C11": ("proof", 'any number of workers and items, any outcome of the function, any state of the future'),
    "C12": ("proof", 'asyncio.Queue, heapq, itertools.count and weakref dictionaries trusted; keywords of a submission by one generic keyword'),
    "C19": ("proof", "any number of results, any outcome of asking them; iteration of the mapping by C18's contract; delegated built-ins trusted"),
    "C18": ("proof", 'one generic key: looking up, starting, loading from any number of sources, every way of iterating, gathering and popping; any number of other keys, any interleaving at suspension points'),
}
NA = {}
