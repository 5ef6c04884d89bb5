From e1d3deee272501762ccc81c3530c5258df7866df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:20 +0000
Subject: [PATCH 01/38] fix: methods and properties work in a thread that has
 no event loop yet

Reading a dual-mode method or property called asyncio.get_event_loop directly, so a
synchronous call raised RuntimeError in worker threads and after asyncio.run, where the
same call of a dual-mode function works.  Use the package's own get_event_loop.
---
 a_sync/a_sync/method.pyx   | 5 +----
 a_sync/a_sync/property.pyx | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 1e3afe6..605e217 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -17,7 +17,7 @@ from logging import DEBUG, getLogger
 from a_sync._typing import *
 from a_sync.a_sync._kwargs cimport get_flag_name, is_sync
 from a_sync.a_sync._descriptor import ASyncDescriptor
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.a_sync.function import (
     ASyncFunction,
     ASyncFunctionAsyncDefault,
@@ -39,9 +39,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
     """
     A descriptor for managing methods that can be called both synchronously and asynchronously.
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 4df298f..52f022d 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -7,7 +7,7 @@ from typing_extensions import Unpack
 from a_sync import _smart
 from a_sync._typing import *
 from a_sync.a_sync import config
-from a_sync.a_sync._helpers cimport _asyncify, _await
+from a_sync.a_sync._helpers cimport _asyncify, _await, get_event_loop
 from a_sync.a_sync._descriptor import ASyncDescriptor
 from a_sync.a_sync.function import (
     ASyncFunction,
@@ -30,9 +30,6 @@ logger = getLogger(__name__)
 cdef object c_logger = logger
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
     """Base class for creating asynchronous properties.
 
-- 
2.43.0


From 07496e9d800df9c5fc07dfe0ca68019a7fd4f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 02/38] fix: gather of a mapping with exclude_if no longer
 raises KeyError for excluded keys

---
 a_sync/asyncio/gather.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 9e523fb..1e35808 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -197,7 +197,7 @@ async def gather_mapping(
         if exclude_if is None or not exclude_if(v)
     }
     # return data in same order as input mapping
-    return {k: results[k] for k in mapping}
+    return {k: results[k] for k in mapping if k in results}
 
 cdef inline bint _is_mapping(object awaitables):
     return len(awaitables) == 1 and isinstance(awaitables[0], Mapping)
-- 
2.43.0


From 8255abcf07090bd191ba7681d576623facd8fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:19 +0000
Subject: [PATCH 03/38] fix: as_completed honours fractional (and zero)
 timeouts for mappings

The timeout of as_completed_mapping was an unsigned int, so 0.5 was cut to 0, which meant no
timeout at all, and a negative timeout raised OverflowError.
---
 a_sync/asyncio/as_completed.pxd | 2 +-
 a_sync/asyncio/as_completed.pyx | 6 +++---
 a_sync/asyncio/gather.pyx       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/asyncio/as_completed.pxd b/a_sync/asyncio/as_completed.pxd
index 7486941..7bb75af 100644
--- a/a_sync/asyncio/as_completed.pxd
+++ b/a_sync/asyncio/as_completed.pxd
@@ -1,6 +1,6 @@
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
diff --git a/a_sync/asyncio/as_completed.pyx b/a_sync/asyncio/as_completed.pyx
index d183b39..3438e44 100644
--- a/a_sync/asyncio/as_completed.pyx
+++ b/a_sync/asyncio/as_completed.pyx
@@ -117,7 +117,7 @@ def as_completed(
     if isinstance(fs, Mapping):
         return as_completed_mapping(
             mapping=fs,
-            timeout=timeout or 0,
+            timeout=timeout,
             return_exceptions=return_exceptions,
             aiter=aiter,
             tqdm=tqdm,
@@ -140,7 +140,7 @@ def as_completed(
 
 cdef object as_completed_mapping(
     object mapping,
-    unsigned int timeout,
+    object timeout,
     bint return_exceptions,
     bint aiter,
     bint tqdm,
@@ -177,7 +177,7 @@ cdef object as_completed_mapping(
             __mapping_wrap(k, v, return_exceptions=return_exceptions)
             for k, v in mapping.items()
         ],
-        timeout=timeout or None,
+        timeout=timeout,
         aiter=aiter,
         tqdm=tqdm,
         **tqdm_kwargs
diff --git a/a_sync/asyncio/gather.pyx b/a_sync/asyncio/gather.pyx
index 1e35808..467c85b 100644
--- a/a_sync/asyncio/gather.pyx
+++ b/a_sync/asyncio/gather.pyx
@@ -188,7 +188,7 @@ async def gather_mapping(
         k: v
         async for k, v in as_completed_mapping(
             mapping=mapping,
-            timeout=0,
+            timeout=None,
             return_exceptions=return_exceptions,
             aiter=True,
             tqdm=tqdm,
-- 
2.43.0


From fa262525c4d512630c941b586c5a4082a8f67b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:02 +0000
Subject: [PATCH 04/38] fix: a cancelled persisted task no longer breaks
 create_task, finished ones are released

Pruning called exception() on cancelled tasks, so every later create_task raised CancelledError
in an unrelated caller; tasks that ended without exception were never removed from the set.
---
 a_sync/asyncio/create_task.pyx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/a_sync/asyncio/create_task.pyx b/a_sync/asyncio/create_task.pyx
index 129c0a5..dc8e67a 100644
--- a/a_sync/asyncio/create_task.pyx
+++ b/a_sync/asyncio/create_task.pyx
@@ -125,7 +125,7 @@ cdef void __prune_persisted_tasks():
     """Remove completed tasks from the set of persisted tasks.
 
     This function checks each task in the persisted tasks set. If a task is done and has an exception,
-    it logs the exception and raises it if it's not a :class:`PersistedTaskException`. It also logs the traceback
+    it logs the exception if it's not a :class:`PersistedTaskException`. It also logs the traceback
     manually since the usual handler will not run after retrieving the exception.
 
     See Also:
@@ -134,11 +134,13 @@ cdef void __prune_persisted_tasks():
     cdef object task
     cdef dict context
     for task in tuple(__persisted_tasks):
-        if task.done() and (e := task.exception()):
-            # force exceptions related to this lib to bubble up
+        if not task.done():
+            continue
+        __persisted_tasks.discard(task)
+        if not task.cancelled() and (e := task.exception()):
             if not isinstance(e, exceptions.PersistedTaskException):
+                # this is not the outcome of whoever is creating a task right now, don't raise it here
                 c_logger.exception(e)
-                raise e
             # we have to manually log the traceback that asyncio would usually log
             # since we already got the exception from the task and the usual handler will now not run
             context = {
@@ -149,7 +151,6 @@ cdef void __prune_persisted_tasks():
             if task._source_traceback:
                 context["source_traceback"] = task._source_traceback
             task._loop.call_exception_handler(context)
-            __persisted_tasks.discard(task)
 
 
 async def __persisted_task_exc_wrap(task: "asyncio.Task[T]") -> T:
-- 
2.43.0


From 22045e2fb2e5e0934eec27f01e10d348a6ae2fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:12 +0000
Subject: [PATCH 05/38] fix: Queue.get_multi honours can_return_less and never
 loses or reorders items

---
 a_sync/primitives/queue.py | 41 +++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 33398b9..06f1423 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -198,12 +198,19 @@ class Queue(_Queue[T]):
             >>> print(tasks)
         """
         _validate_args(i, can_return_less)
-        items = []
-        while len(items) < i and not can_return_less:
-            try:
-                items.extend(self.get_multi_nowait(i - len(items), can_return_less=True))
-            except asyncio.QueueEmpty:
-                items = [await self.get()]
+        items: List[T] = []
+        try:
+            while len(items) < i:
+                if self._queue:
+                    items.append(self.get_nowait())
+                elif items and can_return_less:
+                    break
+                else:
+                    items.append(await self.get())
+        except BaseException:
+            # we can't return these so they go back where they came from
+            self._return_items(items)
+            raise
         return items
 
     def get_multi_nowait(self, i: int, can_return_less: bool = False) -> List[T]:
@@ -222,18 +229,16 @@ class Queue(_Queue[T]):
             >>> print(tasks)
         """
         _validate_args(i, can_return_less)
-        items = []
-        for _ in range(i):
-            try:
-                items.append(self.get_nowait())
-            except asyncio.QueueEmpty:
-                if items and can_return_less:
-                    return items
-                # put these back in the queue since we didn't return them
-                for value in items:
-                    self.put_nowait(value)
-                raise asyncio.QueueEmpty from None
-        return items
+        available = len(self._queue)
+        if available < i and not (available and can_return_less):
+            raise asyncio.QueueEmpty
+        return [self.get_nowait() for _ in range(min(i, available))]
+
+    def _return_items(self, items: List[T]) -> None:
+        """Puts `items` back at the front of the queue, in order, as if they were never retrieved."""
+        self._queue.extendleft(reversed(items))
+        for _ in items:
+            self._wakeup_next(self._getters)
 
 
 class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
-- 
2.43.0


From d1b17708d51b3b7a4a62df28baf43d46f2bc6026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 06/38] fix: awaiting put of a processing queue enqueues the
 item once

---
 a_sync/primitives/queue.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 06f1423..5380378 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -400,12 +400,8 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        if self._no_futs:
-            return await super().put((args, kwargs))
-        fut = self._create_future()
-        await super().put((args, kwargs, fut))
-        return fut
+        # the queue has no maxsize so there is never anything to wait for
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
-- 
2.43.0


From d115cec0759350b7361ca1e6a83dc9ed3bb42056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 07/38] fix: a cancelled, failing or abandoned item no longer
 kills a processing queue's worker

---
 a_sync/primitives/queue.py | 64 +++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 5380378..9150e35 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -473,9 +473,13 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
         kwargs: P.kwargs
         if self._no_futs:
             while True:
+                args, kwargs = await self.get()
                 try:
-                    args, kwargs = await self.get()
                     await self.func(*args, **kwargs)
+                except asyncio.CancelledError as e:
+                    if _current_task_is_cancelling():
+                        raise
+                    logger.error("%s in worker for %s!", type(e).__name__, self)
                 except Exception as e:
                     logger.error("%s in worker for %s!", type(e).__name__, self)
                     logger.exception(e)
@@ -485,36 +489,46 @@ class ProcessingQueue(_Queue[Tuple[P, "asyncio.Future[V]"]], Generic[P, V]):
             while True:
                 try:
                     args, kwargs, fut = await self.get()
-                    try:
-                        if fut is None:
-                            # the weakref was already cleaned up, we don't need to process this item
-                            self.task_done()
-                            continue
-                        result = await self.func(*args, **kwargs)
-                        fut.set_result(result)
-                    except asyncio.exceptions.InvalidStateError:
-                        logger.error(
-                            "cannot set result for %s %s: %s",
-                            self.func.__name__,
-                            fut,
-                            result,
-                        )
-                    except Exception as e:
-                        try:
-                            fut.set_exception(e)
-                        except asyncio.exceptions.InvalidStateError:
-                            logger.error(
-                                "cannot set exception for %s %s: %s",
-                                self.func.__name__,
-                                fut,
-                                e,
-                            )
+                    # if the weakref was already cleaned up, we don't need to process this item
+                    if fut is not None:
+                        await self._process(fut, args, kwargs)
                     self.task_done()
                 except Exception as e:
                     logger.error("%s for %s is broken!!!", type(self).__name__, self.func)
                     logger.exception(e)
                     raise
 
+    async def _process(self, fut: "asyncio.Future[V]", args: P.args, kwargs: P.kwargs) -> None:
+        """Runs one item and hands its outcome to `fut`."""
+        try:
+            result = await self.func(*args, **kwargs)
+        except asyncio.CancelledError:
+            if _current_task_is_cancelling():
+                # the worker itself is being cancelled, not just this item
+                raise
+            self._settle(fut, "cancel")
+        except Exception as e:
+            self._settle(fut, "set_exception", e)
+        else:
+            self._settle(fut, "set_result", result)
+
+    def _settle(self, fut: "asyncio.Future[V]", method: str, *outcome: Any) -> None:
+        """Calls `method` of `fut`, which may be done already or even gone."""
+        try:
+            getattr(fut, method)(*outcome)
+        except asyncio.InvalidStateError:
+            logger.error("cannot %s for %s %s: %s", method, self.func, fut, outcome)
+        except ReferenceError:
+            logger.debug("nobody is waiting for %s to %s: %s", self.func, method, outcome)
+
+
+def _current_task_is_cancelling() -> bool:
+    """Tells whether someone requested the cancellation of the current task."""
+    try:
+        return asyncio.current_task().cancelling() > 0
+    except AttributeError:  # python < 3.11 can't tell
+        return True
+
 
 def _validate_args(i: int, can_return_less: bool) -> None:
     """
-- 
2.43.0


From 82c2008bf48c32061d9b22d3f28438297697924c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 08/38] fix: PriorityProcessingQueue.put and put_nowait work,
 equal priorities keep submission order

---
 a_sync/primitives/queue.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 9150e35..574efe0 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -16,6 +16,7 @@ See Also:
 import asyncio
 import functools
 import heapq
+import itertools
 import logging
 import sys
 import weakref
@@ -642,6 +643,16 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         :class:`~ProcessingQueue`
     """
 
+    def _init(self, maxsize):
+        """
+        Initializes the priority queue.
+
+        Example:
+            >>> queue._init(maxsize=10)
+        """
+        super()._init(maxsize)
+        self._counter = itertools.count()
+
     async def put(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
         Asynchronously adds a task with priority to the queue.
@@ -658,10 +669,8 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> fut = await queue.put(priority=1, item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        fut = asyncio.get_event_loop().create_future()
-        await super().put(self, (priority, args, kwargs, fut))
-        return fut
+        # the queue has no maxsize so there is never anything to wait for
+        return self.put_nowait(priority, *args, **kwargs)
 
     def put_nowait(self, priority: Any, *args: P.args, **kwargs: P.kwargs) -> "asyncio.Future[V]":
         """
@@ -680,8 +689,11 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
             >>> print(await fut)
         """
         self._ensure_workers()
+        # the counter preserves submission order and means we never need to compare the args
+        if self._no_futs:
+            return _Queue.put_nowait(self, (priority, next(self._counter), args, kwargs))
         fut = self._create_future()
-        super().put_nowait(self, (priority, args, kwargs, fut))
+        _Queue.put_nowait(self, (priority, next(self._counter), args, kwargs, fut))
         return fut
 
     def _get(self, heappop=heapq.heappop):
@@ -689,14 +701,14 @@ class PriorityProcessingQueue(_PriorityQueueMixin[T], ProcessingQueue[T, V]):
         Retrieves the highest priority task from the queue.
 
         Returns:
-            The priority, task arguments, keyword arguments, and future of the task.
+            The task arguments, keyword arguments, and future of the task.
 
         Example:
             >>> task = queue._get()
             >>> print(task)
         """
-        priority, args, kwargs, fut = heappop(self._queue)
-        return args, kwargs, fut
+        priority, count, *item = heappop(self._queue)
+        return item
 
 
 class _VariablePriorityQueueMixin(_PriorityQueueMixin[T]):
-- 
2.43.0


From 9301d5931606527f8c40631c6a40097fcb4509d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 09/38] fix: SmartProcessingQueue.put works, a finished future
 is never handed out as a pending one

---
 a_sync/_smart.py           |  4 +++-
 a_sync/primitives/queue.py | 13 ++++---------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index 80aa21a..d82b3e3 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -142,7 +142,9 @@ class _SmartFutureMixin(Generic[T]):
         """
         self._waiters.clear()
         if queue := self._queue:
-            queue._futs.pop(self._key)
+            # a newer future might have taken our place already
+            if queue._futs.get(self._key) is self:
+                del queue._futs[self._key]
 
 
 class SmartFuture(_SmartFutureMixin[T], asyncio.Future):
diff --git a/a_sync/primitives/queue.py b/a_sync/primitives/queue.py
index 574efe0..6d3df2a 100644
--- a/a_sync/primitives/queue.py
+++ b/a_sync/primitives/queue.py
@@ -841,14 +841,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
             >>> fut = await queue.put(item='task')
             >>> print(await fut)
         """
-        self._ensure_workers()
-        key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
-            return fut
-        fut = self._create_future(key)
-        self._futs[key] = fut
-        await Queue.put(self, (_SmartFutureRef(fut), args, kwargs))
-        return fut
+        # the queue has no maxsize so there is never anything to wait for
+        return self.put_nowait(*args, **kwargs)
 
     def put_nowait(self, *args: P.args, **kwargs: P.kwargs) -> _smart.SmartFuture[V]:
         """
@@ -867,7 +861,8 @@ class SmartProcessingQueue(_VariablePriorityQueueMixin[T], ProcessingQueue[Conca
         """
         self._ensure_workers()
         key = self._get_key(*args, **kwargs)
-        if fut := self._futs.get(key, None):
+        fut = self._futs.get(key, None)
+        if fut is not None and not fut.done():
             return fut
         fut = self._create_future(key)
         self._futs[key] = fut
-- 
2.43.0


From b06de684d3f4f454d47d7c54eb16cd923a01e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 10/38] fix: a SmartFuture forgets a waiter which stopped
 waiting without being done

---
 a_sync/_smart.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/a_sync/_smart.py b/a_sync/_smart.py
index d82b3e3..5760746 100644
--- a/a_sync/_smart.py
+++ b/a_sync/_smart.py
@@ -91,7 +91,12 @@ class _SmartFutureMixin(Generic[T]):
             )
 
         logger.debug("awaiting %s", self)
-        yield self  # This tells Task to wait for completion.
+        try:
+            yield self  # This tells Task to wait for completion.
+        finally:
+            # The waiter stopped waiting, even if it was cancelled or timed out and is not done.
+            if current_task:
+                self._waiters.discard(current_task)
         if not self.done():
             raise RuntimeError("await wasn't used with future")
         return self.result()  # May raise too.
@@ -132,7 +137,7 @@ class _SmartFutureMixin(Generic[T]):
             Automatically called when a waiter task completes.
         """
         if not self.done():
-            self._waiters.remove(waiter)
+            self._waiters.discard(waiter)
 
     def _self_done_cleanup_callback(self: Union["SmartFuture", "SmartTask"]) -> None:
         """
@@ -433,6 +438,8 @@ def shield(
                 outer.set_result(inner.result())
 
     def _outer_done_callback(outer):
+        if waiters is not None:
+            waiters.discard(outer)
         if not inner.done():
             inner.remove_done_callback(_inner_done_callback)
 
-- 
2.43.0


From 0593ee79aa92b2fce915780724f93d2e5ee70400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 11/38] fix: Semaphore.acquire takes its permit when it is
 awaited, not before

---
 a_sync/primitives/locks/semaphore.pyx | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index ea6f43d..49b4ef4 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -15,10 +15,6 @@ from a_sync._typing import *
 from a_sync.primitives._debug cimport _DebugDaemonMixin
 
 
-async def __acquire() -> Literal[True]:
-    return True
-
-
 cdef class Semaphore(_DebugDaemonMixin):
     """
     A semaphore with additional debugging capabilities inherited from :class:`_DebugDaemonMixin`.
@@ -199,13 +195,15 @@ cdef class Semaphore(_DebugDaemonMixin):
         if self._Semaphore__value <= 0:
             self._c_ensure_debug_daemon((),{})
 
-        if not self.c_locked():
-            self._Semaphore__value -= 1
-            return __acquire()
-
         return self.__acquire()
 
     async def __acquire(self) -> Literal[True]:
+        # NOTE: We can't check this any sooner because the coroutine might
+        # start much later than it was created, or might never start at all.
+        if not self.c_locked():
+            self._Semaphore__value -= 1
+            return True
+
         # Finally block should be called before the CancelledError
         # handling as we don't want CancelledError to call
         # _wake_up_first() and attempt to wake up itself.
-- 
2.43.0


From 14d3790496262280b2b65e31753e08582e814733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:45 +0000
Subject: [PATCH 12/38] fix: DummySemaphore no longer frees its name twice

---
 a_sync/primitives/locks/semaphore.pyx | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 49b4ef4..1e49b2e 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -352,11 +352,6 @@ cdef class DummySemaphore(Semaphore):
         # Copy the bytes data into the char*
         strcpy(self._name, encoded_name)
 
-    def __dealloc__(self):
-        # Free the memory allocated for _name
-        if self._name is not NULL:
-            free(self._name)
-
     def __repr__(self) -> str:
         return "<{} name={}>".format(self.__class__.__name__, self.decode_name())
 
-- 
2.43.0


From efdb32721f79ce664053beb9a47f85f7ce7960f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 13/38] fix: ThreadsafeSemaphore's acquire, release, locked and
 semaphore use the current thread's semaphore, len and repr work

---
 a_sync/primitives/locks/semaphore.pyx | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/a_sync/primitives/locks/semaphore.pyx b/a_sync/primitives/locks/semaphore.pyx
index 1e49b2e..f3ecc34 100644
--- a/a_sync/primitives/locks/semaphore.pyx
+++ b/a_sync/primitives/locks/semaphore.pyx
@@ -415,8 +415,8 @@ cdef class ThreadsafeSemaphore(Semaphore):
             self.dummy = None
 
     def __len__(self) -> int:
-        cdef dict[object, Semaphore] semaphores = self.semaphores
-        return sum(len(sem) for sem in semaphores.values())
+        # other threads can add their semaphores at any time so we need a copy
+        return sum(map(len, list(self.semaphores.values())))
 
     @property
     def semaphore(self) -> Semaphore:
@@ -432,10 +432,29 @@ cdef class ThreadsafeSemaphore(Semaphore):
                 async with semaphore.semaphore:
                     return 1
         """
+        return self.c_get_semaphore()
     
     cdef Semaphore c_get_semaphore(self):
         return self.dummy if self.use_dummy else self.semaphores[current_thread()]
 
+    cpdef bint locked(self):
+        return self.c_get_semaphore().c_locked()
+
+    cdef bint c_locked(self):
+        return self.c_get_semaphore().c_locked()
+
+    cpdef object acquire(self):
+        return self.c_get_semaphore().c_acquire()
+
+    cdef object c_acquire(self):
+        return self.c_get_semaphore().c_acquire()
+
+    cpdef void release(self):
+        self.c_get_semaphore().c_release()
+
+    cdef void c_release(self):
+        self.c_get_semaphore().c_release()
+
     async def __aenter__(self):
         await self.c_get_semaphore().c_acquire()
 
-- 
2.43.0


From 5d60f084aa64962dc3625fccb0c951f73b1110ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 14/38] fix: PrioritySemaphore hands each permit directly to
 the best waiter

---
 a_sync/primitives/locks/prio_semaphore.pyx | 38 +++++++++++++---------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index 6a70681..a2c9e46 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -234,6 +234,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
                 waiter = manager._Semaphore__waiters.popleft()
                 self._potential_lost_waiters.remove(waiter)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     woke_up = True
                     if debug_logs:
@@ -261,6 +262,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             while self._potential_lost_waiters:
                 waiter = self._potential_lost_waiters.pop(0)
                 if not waiter.done():
+                    self._Semaphore__value -= 1
                     waiter.set_result(None)
                     return
             return
@@ -269,6 +271,7 @@ cdef class _AbstractPrioritySemaphore(Semaphore):
             waiter = self._potential_lost_waiters.pop(0)
             c_logger._log(DEBUG, "we found a lost waiter %s", (waiter, ))
             if not waiter.done():
+                self._Semaphore__value -= 1
                 waiter.set_result(None)
                 c_logger._log(DEBUG, "woke up lost waiter %s", (waiter, ))
                 return
@@ -369,21 +372,26 @@ cdef class _AbstractPrioritySemaphoreContextManager(Semaphore):
     
     async def __acquire(self) -> Literal[True]:
         cdef object loop, fut
-        while self._parent._Semaphore__value <= 0:
-            if self._Semaphore__waiters is None:
-                self._Semaphore__waiters = deque()
-            fut = self._c_get_loop().create_future()
-            self._Semaphore__waiters.append(fut)
-            self._parent._potential_lost_waiters.append(fut)
-            try:
-                await fut
-            except:
-                # See the similar code in Queue.get.
-                fut.cancel()
-                if self._parent._Semaphore__value > 0 and not fut.cancelled():
-                    self._parent._wake_up_next()
-                raise
-        self._parent._Semaphore__value -= 1
+        cdef _AbstractPrioritySemaphoreContextManager manager
+        if self._parent._Semaphore__value > 0:
+            self._parent._Semaphore__value -= 1
+            return True
+        # The parent gets rid of empty managers, so it might have replaced this one.
+        manager = self._parent.c_getitem(self._priority)
+        fut = self._c_get_loop().create_future()
+        manager._Semaphore__waiters.append(fut)
+        self._parent._potential_lost_waiters.append(fut)
+        try:
+            # Whoever wakes us up takes the permit on our behalf, so nobody else can.
+            await fut
+        except:
+            # See the similar code in Queue.get.
+            fut.cancel()
+            if not fut.cancelled():
+                # We can't use the permit we were given.
+                self._parent._Semaphore__value += 1
+                self._parent._c_wake_up_next()
+            raise
         return True
 
     cpdef void release(self):
-- 
2.43.0


From 1d6cfcaa76aa00181bb948191c115ee98aecc9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 15/38] fix: priority 0 of a PrioritySemaphore is not the top
 priority

---
 a_sync/primitives/locks/prio_semaphore.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/a_sync/primitives/locks/prio_semaphore.pyx b/a_sync/primitives/locks/prio_semaphore.pyx
index a2c9e46..e7b7823 100644
--- a/a_sync/primitives/locks/prio_semaphore.pyx
+++ b/a_sync/primitives/locks/prio_semaphore.pyx
@@ -508,7 +508,7 @@ cdef class PrioritySemaphore(_AbstractPrioritySemaphore):  # type: ignore [type-
             >>> semaphore = _AbstractPrioritySemaphore(5)
             >>> context_manager = semaphore[priority]
         """
-        return self.c_getitem(priority or -1)
+        return self.c_getitem(-1 if priority is None else priority)
     
     cdef object c_getitem(self, object priority):
         if self._Semaphore__value is None:
-- 
2.43.0


From 5bd136d9ba6307300bf957edb6047751aba2e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 16/38] fix: ASyncSorter sorts async iterables by an async key
 too and never compares the items

---
 a_sync/iter.pyx | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 94d9a09..e0ec602 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -5,6 +5,7 @@ import logging
 import sys
 import weakref
 from copy import deepcopy
+from operator import itemgetter
 from types import FunctionType
 from typing import _GenericAlias, get_args
 
@@ -751,11 +752,12 @@ class ASyncSorter(_ASyncView[T]):
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-                for sort_value, obj in sorted(
-                    zip(await asyncio.gather(*sort_tasks), items),
-                    reverse=reverse,
-                ):
-                    yield obj
+            for sort_value, obj in sorted(
+                zip(await asyncio.gather(*sort_tasks), items),
+                key=itemgetter(0),
+                reverse=reverse,
+            ):
+                yield obj
         else:
             if self.__aiterator__:
                 items = [obj async for obj in self.__aiterator__]
-- 
2.43.0


From f79414874aea0b604b05a93c9b0c07e4a7bd39cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 17/38] fix: ASyncFilter and ASyncSorter accept iterators which
 are falsy

---
 a_sync/iter.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index e0ec602..06fd2b1 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -614,11 +614,11 @@ class ASyncFilter(_ASyncView[T]):
 
     async def __anext__(self) -> T:
         cdef object obj
-        if self.__aiterator__:
+        if self.__aiterator__ is not None:
             async for obj in self.__aiterator__:
                 if await self._check(obj):
                     return obj
-        elif self.__iterator__:
+        elif self.__iterator__ is not None:
             try:
                 for obj in self.__iterator__:
                     if await self._check(obj):
@@ -740,13 +740,13 @@ class ASyncSorter(_ASyncView[T]):
         if asyncio.iscoroutinefunction(self._function):
             items = []
             sort_tasks = []
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 async for obj in self.__aiterator__:
                     items.append(obj)
                     sort_tasks.append(
                         ccreate_task_simple(self._function(obj))
                     )
-            elif self.__iterator__:
+            elif self.__iterator__ is not None:
                 for obj in self.__iterator__:
                     items.append(obj)
                     sort_tasks.append(
@@ -759,7 +759,7 @@ class ASyncSorter(_ASyncView[T]):
             ):
                 yield obj
         else:
-            if self.__aiterator__:
+            if self.__aiterator__ is not None:
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-- 
2.43.0


From 4962347f589a935393fa7a3f4169c711c355f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 18/38] fix: dual iterators iterate synchronously in a thread
 that has no event loop yet

---
 a_sync/iter.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 06fd2b1..8e2104e 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -12,7 +12,7 @@ from typing import _GenericAlias, get_args
 from async_property import async_cached_property
 
 from a_sync._typing import *
-from a_sync.a_sync._helpers cimport _await
+from a_sync.a_sync._helpers cimport _await, get_event_loop
 from a_sync.asyncio.create_task cimport ccreate_task_simple
 from a_sync.exceptions import SyncModeInAsyncContextError
 
@@ -30,9 +30,6 @@ else:
 cdef tuple[str] _FORMAT_PATTERNS = ("{cls}", "{obj}")
 
 
-cdef object get_event_loop = asyncio.get_event_loop
-
-
 class _AwaitableAsyncIterableMixin(AsyncIterable[T]):
     """
     A mixin class defining logic for making an AsyncIterable awaitable.
-- 
2.43.0


From 333631583b2c3194176b64f150382792bdc9c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:50 +0000
Subject: [PATCH 19/38] fix: a cached property is loaded once even if accessed
 before, a failure is not remembered

---
 a_sync/a_sync/property.pyx | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 52f022d..12aa8cf 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -457,14 +457,27 @@ class ASyncCachedPropertyDescriptor(
 
         @functools.wraps(self._fget)
         async def load_value():
+            if self.has_cache_value(instance):
+                # somebody else loaded the value since this reader accessed the property
+                return self.get_cache_value(instance)
             inner_task = self.get_lock(instance)
+            locks = self.get_instance_state(instance).lock
             try:
                 value = await _smart.shield(inner_task)
-            except Exception as e:
-                e.args = *e.args, {"property": self, "instance": instance}
+            except BaseException as e:
+                if (
+                    inner_task.done()
+                    and (inner_task.cancelled() or inner_task.exception())
+                    and locks.get(self.field_name) is inner_task
+                ):
+                    # we don't remember a failure, the next reader will try again
+                    self.pop_lock(instance)
+                if isinstance(e, Exception):
+                    e.args = *e.args, {"property": self, "instance": instance}
                 raise
-            self.__set__(instance, value)
-            self.pop_lock(instance)
+            if locks.get(self.field_name) is inner_task:
+                self.__set__(instance, value)
+                self.pop_lock(instance)
             return value
 
         return load_value
-- 
2.43.0


From 7073529cf1059f61a4302d656b5454b5e609f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:36 +0000
Subject: [PATCH 20/38] fix: an ASyncFuture can be awaited by several tasks at
 once

---
 a_sync/future.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 91af653..266b1f1 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -353,7 +353,10 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
 
     async def __await(self) -> T:
         if not self.done():
-            self.set_result(await self.__task__)
+            result = await self.__task__
+            # another awaiter might have set the result while we were waiting
+            if not self.done():
+                self.set_result(result)
         return self._result
 
     @property
-- 
2.43.0


From 915910a0866632182245e59bea42eb7bed8eb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:53 +0000
Subject: [PATCH 21/38] fix: a done ASyncFuture is usable in a running loop,
 RuntimeErrors of its coroutine are not replaced

---
 a_sync/future.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/a_sync/future.py b/a_sync/future.py
index 266b1f1..d6d6125 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -126,11 +126,15 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
     See Also:
         :class:`ASyncFuture`
     """
+    if meta.done():
+        return meta._result
     try:
-        return asyncio.get_event_loop().run_until_complete(meta)
+        return a_sync.asyncio.get_event_loop().run_until_complete(meta)
     except RuntimeError as e:
+        if str(e) != "This event loop is already running":
+            raise
         raise RuntimeError(
-            f"{meta} result is not set and the event loop is running, you will need to await it first"
+            f"{meta!r} result is not set and the event loop is running, you will need to await it first"
         ) from e
 
 
-- 
2.43.0


From 4bca71cac0b29db765694adfaa5ef8ab19efab6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 22/38] fix: class-defined modifiers are applied once to a
 coroutine method

---
 a_sync/a_sync/_descriptor.py |  8 ++++++++
 a_sync/a_sync/method.pyx     | 16 ++++++++--------
 a_sync/a_sync/property.pyx   |  4 ++--
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/a_sync/a_sync/_descriptor.py b/a_sync/a_sync/_descriptor.py
index 8c83812..6b71069 100644
--- a/a_sync/a_sync/_descriptor.py
+++ b/a_sync/a_sync/_descriptor.py
@@ -17,6 +17,7 @@ import functools
 
 from a_sync._typing import *
 from a_sync.a_sync import decorator
+from a_sync.a_sync.config import null_modifiers
 from a_sync.a_sync.function import (
     ASyncFunction,
     ModifierManager,
@@ -94,6 +95,13 @@ class ASyncDescriptor(_ModifiedMixin, Generic[I, P, T]):
             _validate_wrapped_fn(_fget)
             self.__wrapped__ = _fget
 
+        self._bound_modifiers = dict(self.modifiers)
+        """The modifiers for the bound methods, without those we already applied to the wrapped function."""
+        if self.__wrapped__ is not _fget:
+            self._bound_modifiers.update(
+                (key, null_modifiers[key]) for key in null_modifiers if key not in ("default", "executor")
+            )
+
         self.field_name = field_name or _fget.__name__
         """The name of the field the :class:`ASyncDescriptor` is bound to."""
 
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 605e217..e8c73e7 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -129,11 +129,11 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
 
             if self.default == "sync":
                 bound = ASyncBoundMethodSyncDefault(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             elif self.default == "async":
                 bound = ASyncBoundMethodAsyncDefault(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             elif isinstance(instance, ASyncABC):
                 try:
@@ -142,25 +142,25 @@ class ASyncMethodDescriptor(ASyncDescriptor[I, P, T]):
                             instance,
                             self.__wrapped__,
                             self.__is_async_def__,
-                            **self.modifiers,
+                            **self._bound_modifiers,
                         )
                     else:
                         bound = ASyncBoundMethodAsyncDefault(
                             instance,
                             self.__wrapped__,
                             self.__is_async_def__,
-                            **self.modifiers,
+                            **self._bound_modifiers,
                         )
                 except AttributeError:
                     bound = ASyncBoundMethod(
                         instance,
                         self.__wrapped__,
                         self.__is_async_def__,
-                        **self.modifiers,
+                        **self._bound_modifiers,
                     )
             else:
                 bound = ASyncBoundMethod(
-                    instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                    instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
                 )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -316,7 +316,7 @@ class ASyncMethodDescriptorSyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[self.field_name]
         except KeyError:
             bound = ASyncBoundMethodSyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
@@ -401,7 +401,7 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
             bound = instance.__dict__[self.field_name]
         except KeyError:
             bound = ASyncBoundMethodAsyncDefault(
-                instance, self.__wrapped__, self.__is_async_def__, **self.modifiers
+                instance, self.__wrapped__, self.__is_async_def__, **self._bound_modifiers
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new bound method: %s", bound)
diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 12aa8cf..65743c5 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -77,7 +77,7 @@ class _ASyncPropertyDescriptorBase(ASyncDescriptor[I, Tuple[()], T]):
         cdef dict hidden_modifiers
         super().__init__(_fget, field_name, **modifiers)
         self.hidden_method_name = f"__{self.field_name}__"
-        hidden_modifiers = dict(self.modifiers)
+        hidden_modifiers = dict(self._bound_modifiers)
         hidden_modifiers["default"] = "async"
         self.hidden_method_descriptor = HiddenMethodDescriptor(
             self.get, self.hidden_method_name, **hidden_modifiers
@@ -758,7 +758,7 @@ class HiddenMethodDescriptor(ASyncMethodDescriptorAsyncDefault[I, Tuple[()], T])
                 self.__wrapped__,
                 self.__is_async_def__,
                 self.field_name,
-                **self.modifiers,
+                **self._bound_modifiers,
             )
             instance.__dict__[self.field_name] = bound
             c_logger.debug("new hidden method: %s", bound)
-- 
2.43.0


From 67f0e94a40c047f791e2d4d1b80e5ed11ded028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 23/38] fix: as_yielded delivers everything yielded before a
 failure and ends when a source is cancelled

---
 a_sync/utils/iterators.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/a_sync/utils/iterators.py b/a_sync/utils/iterators.py
index 44e4da5..a979b45 100644
--- a/a_sync/utils/iterators.py
+++ b/a_sync/utils/iterators.py
@@ -84,7 +84,7 @@ async def exhaust_iterators(
         *[exhaust_iterator(iterator, queue=queue) for iterator in iterators],
         return_exceptions=True,
     ):
-        if isinstance(x, Exception):
+        if isinstance(x, BaseException):
             # raise it with its original traceback instead of from here
             raise x.with_traceback(x.__traceback__)
 
@@ -228,10 +228,10 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
     # hypothesis idea: _Done should never be exposed to user, works for all desired input types
     queue: Queue[Union[T, _Done]] = Queue()
 
-    def _as_yielded_done_callback(t: asyncio.Task) -> None:
+    def _as_yielded_done_callback(t: asyncio.Task, queue=queue) -> None:
         if t.cancelled():
-            return
-        if e := t.exception():
+            queue.put_nowait(_Done(asyncio.CancelledError()))
+        elif (e := t.exception()) is not None:
             traceback.extract_stack
             traceback.clear_frames(e.__traceback__)
             queue.put_nowait(_Done(e))
@@ -243,7 +243,8 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
 
     task.add_done_callback(_as_yielded_done_callback)
 
-    while not task.done():
+    # the populating task always ends with a :class:`_Done` as the last item in the queue
+    while True:
         try:
             items = await queue.get_all()
         except asyncio.CancelledError:
@@ -257,14 +258,11 @@ async def as_yielded(*iterators: AsyncIterator[T]) -> AsyncIterator[T]:  # type:
                 assert queue.empty()
                 del task
                 del queue
-                if item._exc:
+                if item._exc is not None:
                     raise item._exc.with_traceback(item._tb) from item._exc.__cause__
                 return
             yield item
 
-    # ensure it isn't done due to an internal exception
-    await task
-
 
 class _Done:
     """
@@ -277,7 +275,7 @@ class _Done:
         exc (Optional[Exception]): An optional exception to be associated with the completion.
     """
 
-    def __init__(self, exc: Optional[Exception] = None) -> None:
+    def __init__(self, exc: Optional[BaseException] = None) -> None:
         self._exc = exc
 
     @property
-- 
2.43.0


From df0edcf74582ac2d4d7eb80d5f7f369519ba80bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 24/38] fix: PruningThreadPoolExecutor counts a thread as idle
 only while it has nothing to do

---
 a_sync/executor.py | 54 ++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index 90d687e..d8149a0 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -310,36 +310,44 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
                 executor._initializer_failed()
             return
 
+    idle = False  # whether this thread is counted as idle since its last work item
     try:
         while True:
-            try:  # NOTE: NEW
-                work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
-            except queue.Empty:  # NOTE: NEW
-                # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
-                # Let's suicide the thread.  # NOTE: NEW
-                executor = executor_reference()  # NOTE: NEW
-
-                with executor._adjusting_lock:  # NOTE: NEW
-                    # NOTE: We keep a minimum of one thread active to prevent locks
-                    if len(executor) > 1:  # NOTE: NEW
-                        t = threading.current_thread()  # NOTE: NEW
-                        executor._threads.remove(t)  # NOTE: NEW
-                        thread._threads_queues.pop(t)  # NOTE: NEW
-                        # Let the executor know we have one less idle thread available
-                        executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
-                        return  # NOTE: NEW
-                continue
+            try:
+                work_item = work_queue.get_nowait()
+            except queue.Empty:
+                if not idle:
+                    # increment idle count, only a thread without anything to do is idle
+                    executor = executor_reference()
+                    if executor is not None:
+                        executor._idle_semaphore.release()
+                    del executor
+                    idle = True
+                try:  # NOTE: NEW
+                    work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
+                except queue.Empty:  # NOTE: NEW
+                    # Its been 'timeout' seconds and there are no new work items.  # NOTE: NEW
+                    # Let's suicide the thread.  # NOTE: NEW
+                    executor = executor_reference()  # NOTE: NEW
+                    if executor is not None:
+                        with executor._adjusting_lock:  # NOTE: NEW
+                            # NOTE: We keep a minimum of one thread active to prevent locks
+                            # NOTE: An item which arrived meanwhile might count on this thread
+                            if len(executor) > 1 and work_queue.empty():  # NOTE: NEW
+                                t = threading.current_thread()  # NOTE: NEW
+                                executor._threads.remove(t)  # NOTE: NEW
+                                thread._threads_queues.pop(t)  # NOTE: NEW
+                                # Let the executor know we have one less idle thread available
+                                executor._idle_semaphore.acquire(blocking=False)  # NOTE: NEW
+                                return  # NOTE: NEW
+                    del executor
+                    continue
 
             if work_item is not None:
+                idle = False
                 work_item.run()
                 # Delete references to object. See issue16284
                 del work_item
-
-                # attempt to increment idle count
-                executor = executor_reference()
-                if executor is not None:
-                    executor._idle_semaphore.release()
-                del executor
                 continue
 
             executor = executor_reference()
-- 
2.43.0


From c802aef3588ffb1aa0c359ce3b4ff8003abf4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:18 +0000
Subject: [PATCH 25/38] fix: TaskMapping runs its function once per key and map
 yields every key once

---
 a_sync/task.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index da42f3d..2f0987e 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -317,13 +317,17 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 "You cannot pass `iterables` to map if the TaskMapping was initialized with an (a)iterable."
             )
 
+        # without `pop`, completed tasks stay in the mapping after their key was yielded
+        yielded: Set[K] = set()
         try:
             if iterables:
                 self._raise_if_not_empty()
                 try:
                     async for _ in self._tasks_for_iterables(*iterables):
                         async for key, value in self.yield_completed(pop=pop):
-                            yield _yield(key, value, yields)
+                            if key not in yielded:
+                                yielded.add(key)
+                                yield _yield(key, value, yields)
                 except _EmptySequenceError:
                     if len(iterables) > 1:
                         # TODO gotta handle this situation
@@ -347,7 +351,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         self.pop(key)
                         yield _yield(key, value, yields)
                 else:
-                    async for key, value in as_completed(self, aiter=True):
+                    unyielded = {key: self[key] for key in self if key not in yielded}
+                    async for key, value in as_completed(unyielded, aiter=True):
                         yield _yield(key, value, yields)
         finally:
             await self._if_pop_clear(pop)
@@ -538,6 +543,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
+        seen: Set[K] = set()
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -546,12 +552,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         ]
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self[key]
+                if key not in seen:
+                    seen.add(key)
+                    yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self[key]  # ensure task is running
+                    if key not in seen:
+                        seen.add(key)
+                        yield key, self[key]  # ensure task is running
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
@@ -561,7 +571,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     async def _start_tasks_for_iterables(
         self, *iterables: AnyIterableOrAwaitableIterable[K]
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
-        """Start new tasks for each key in the provided iterables."""
+        """Start a task for each key in the provided iterables, unless it was already started."""
+        seen: Set[K] = set()
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -570,12 +581,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
         ]
         for iterable in containers:
             async for key in _yield_keys(iterable):
-                yield key, self.__start_task(key)
+                if key not in seen:
+                    seen.add(key)
+                    yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
                 async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
-                    yield key, self.__start_task(key)
+                    if key not in seen:
+                        seen.add(key)
+                        yield key, self[key]
             except _EmptySequenceError:
                 if len(iterables) == 1:
                     raise
-- 
2.43.0


From 085b22cd429cf8bedc26d54aad3e34c8e1c4aba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 26/38] fix: TaskMapping accepts empty iterables among several
 and async iterables which are falsy

---
 a_sync/task.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 2f0987e..cc11eaa 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -544,6 +544,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Ensure tasks are running for each key in the provided iterables."""
         seen: Set[K] = set()
+        allow_empty = len(iterables) > 1
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -551,14 +552,14 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in _yield_keys(iterable, allow_empty):
                 if key not in seen:
                     seen.add(key)
                     yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
+                async for key in as_yielded(*[_yield_keys(iterable, allow_empty) for iterable in remaining]):  # type: ignore [attr-defined]
                     if key not in seen:
                         seen.add(key)
                         yield key, self[key]  # ensure task is running
@@ -573,6 +574,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
     ) -> AsyncIterator[Tuple[K, "asyncio.Task[V]"]]:
         """Start a task for each key in the provided iterables, unless it was already started."""
         seen: Set[K] = set()
+        allow_empty = len(iterables) > 1
         # if we have any regular containers we can yield their contents right away
         containers = [
             iterable
@@ -580,14 +582,14 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
             if not isinstance(iterable, AsyncIterable) and isinstance(iterable, Iterable)
         ]
         for iterable in containers:
-            async for key in _yield_keys(iterable):
+            async for key in _yield_keys(iterable, allow_empty):
                 if key not in seen:
                     seen.add(key)
                     yield key, self[key]
 
         if remaining := [iterable for iterable in iterables if iterable not in containers]:
             try:
-                async for key in as_yielded(*[_yield_keys(iterable) for iterable in remaining]):  # type: ignore [attr-defined]
+                async for key in as_yielded(*[_yield_keys(iterable, allow_empty) for iterable in remaining]):  # type: ignore [attr-defined]
                     if key not in seen:
                         seen.add(key)
                         yield key, self[key]
@@ -677,26 +679,31 @@ def _yield(key: K, value: V, yields: Literal["keys", "both"]) -> Union[K, Tuple[
 class _EmptySequenceError(ValueError): ...
 
 
-async def _yield_keys(iterable: AnyIterableOrAwaitableIterable[K]) -> AsyncIterator[K]:
+async def _yield_keys(
+    iterable: AnyIterableOrAwaitableIterable[K], allow_empty: bool = False
+) -> AsyncIterator[K]:
     """
     Asynchronously yield keys from the provided iterable.
 
     Args:
         iterable: An iterable that can be either synchronous or asynchronous.
+        allow_empty: Whether to yield nothing from an empty container instead of raising.
 
     Yields:
         Keys extracted from the iterable.
     """
-    if not iterable:
-        raise _EmptySequenceError(iterable)
-    elif isinstance(iterable, AsyncIterable):
+    if isinstance(iterable, AsyncIterable):
+        # NOTE: its truthiness tells nothing about the keys which are yet to come
         async for key in iterable:
             yield key
+    elif not iterable:
+        if not allow_empty:
+            raise _EmptySequenceError(iterable)
     elif isinstance(iterable, Iterable):
         for key in iterable:
             yield key
     elif inspect.isawaitable(iterable):
-        async for key in _yield_keys(await iterable):
+        async for key in _yield_keys(await iterable, allow_empty):
             yield key
     else:
         raise TypeError(iterable)
-- 
2.43.0


From 3ce1ac2f6671418c158731f5ae41ce95f400bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 27/38] fix: TaskMapping max and min handle None results, sum
 does not modify the results

---
 a_sync/task.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index cc11eaa..93ae2bc 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -38,6 +38,9 @@ from a_sync.utils.iterators import as_yielded, exhaust_iterator
 logger = logging.getLogger(__name__)
 
 
+_NO_RESULT = object()
+"""Placeholder for the result of an aggregation which did not encounter a result yet."""
+
 MappingFn = Callable[Concatenate[K, P], Awaitable[V]]
 
 
@@ -383,41 +386,38 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
     @ASyncMethodDescriptorSyncDefault
     async def max(self, pop: bool = True) -> V:
-        max = None
+        max = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if max is None or result > max:
+                if max is _NO_RESULT or result > max:
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
-        if max is None:
+        if max is _NO_RESULT:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
 
     @ASyncMethodDescriptorSyncDefault
     async def min(self, pop: bool = True) -> V:
         """Return the minimum result from the tasks in the mapping."""
-        min = None
+        min = _NO_RESULT
         try:
             async for key, result in self.__aiter__(pop=pop):
-                if min is None or result < min:
+                if min is _NO_RESULT or result < min:
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
-        if min is None:
+        if min is _NO_RESULT:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
 
     @ASyncMethodDescriptorSyncDefault
     async def sum(self, pop: bool = False) -> V:
         """Return the sum of the results from the tasks in the mapping."""
-        retval = 0
         try:
-            async for key, result in self.__aiter__(pop=pop):
-                retval += result
+            return sum([result async for key, result in self.__aiter__(pop=pop)])
         except _EmptySequenceError:
             return 0
-        return retval
 
     @ASyncIterator.wrap
     async def yield_completed(self, pop: bool = True) -> AsyncIterator[Tuple[K, V]]:
-- 
2.43.0


From ceaff4aeacc5e253bf70a4ffe5af5a2a2e567cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 28/38] fix: iterating a TaskMapping does not hang when a task
 is cancelled before it starts

---
 a_sync/task.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 93ae2bc..8ec78e3 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -193,9 +193,6 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                             if str(e2) == "unsupported callable"
                             else e2.with_traceback(e2.__traceback__)
                         )
-                finally:
-                    self._next.set()
-                    self._next.clear()
 
             self._wrapped_func = _wrapped_set_next
             init_loader_queue: Queue[Tuple[K, "asyncio.Future[V]"]] = Queue()
@@ -638,8 +635,16 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                 name=f"{self._name}[{item}]" if self._name else f"{item}",
             )
         dict.__setitem__(self, item, fut)
+        if self._next is not None:
+            # a task which is cancelled before it starts never runs any of its code, but it does run its callbacks
+            fut.add_done_callback(self.__set_next)
         return fut
 
+    def __set_next(self, _: "asyncio.Future[V]") -> None:
+        """Wake up everyone who is waiting for the next completed task."""
+        self._next.set()
+        self._next.clear()
+
     def __cleanup(self, t: "asyncio.Task[None]") -> None:
         # clear the slot and let the bound Queue die
         del self.__init_loader_coro
-- 
2.43.0


From 6dca24827d0da0ff7673f92e821a7457cf27865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 29/38] fix: a bound method with limits or a cache of its own
 is not replaced after five idle minutes

---
 a_sync/a_sync/method.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index e8c73e7..94e50d1 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -228,11 +228,15 @@ cdef void _update_cache_timer(field_name: str, instance: I, bound: "ASyncBoundMe
         bound: The bound method we are caching.
     """
     # Handler for popping unused bound methods from bound method cache
-    cdef object handle, loop
+    cdef object handle, loop, modifiers
     if handle := bound._cache_handle:
         # update the timer handle
         handle._when = handle._loop.time() + _METHOD_CACHE_TTL
     else:
+        modifiers = bound.modifiers
+        if modifiers.use_semaphore or modifiers.use_limiter or modifiers.use_cache:
+            # these live in the bound method, a new one would start with fresh limits and an empty cache
+            return
         # create and assign the timer handle
         loop = get_event_loop()
         # NOTE: use `instance.__dict__.pop` instead of `delattr` so we don't create a strong ref to `instance`
-- 
2.43.0


From 9101fae38b7f23cd14a2cf1bf0abffb3ffd4b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 30/38] fix: an object's mode is never taken from a
 garbage-collected class

---
 a_sync/a_sync/base.pyx   | 17 +++++++++++------
 a_sync/a_sync/method.pyx | 11 +++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 143dbf7..2764231 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -1,8 +1,8 @@
 import functools
 import inspect
+import weakref
 from contextlib import suppress
 from logging import DEBUG, getLogger
-from libc.stdint cimport uintptr_t
 
 from a_sync import exceptions
 from a_sync._typing import *
@@ -212,13 +212,18 @@ cdef inline bint _get_a_sync_flag_value_from_class_def(object cls, str flag):
     raise exceptions.FlagNotDefined(cls, flag)
 
 
-cdef dict[uintptr_t, object] _init_signature_cache = {}
+# NOTE: keyed by the functions, not their ids: an id is reused once a class is gone
+cdef object _init_signature_cache = weakref.WeakKeyDictionary()
 
 
 cdef _get_init_signature(object cls):
-    cdef uintptr_t cls_init_id = id(cls.__init__)
-    signature = _init_signature_cache.get(cls_init_id)
+    cdef object init = cls.__init__
+    try:
+        signature = _init_signature_cache.get(init)
+    except TypeError:
+        # not weakly referenceable, an `__init__` implemented in C for example
+        return inspect.signature(init)
     if signature is None:
-        signature = inspect.signature(cls.__init__)
-        _init_signature_cache[cls_init_id] = signature
+        signature = inspect.signature(init)
+        _init_signature_cache[init] = signature
     return signature
diff --git a/a_sync/a_sync/method.pyx b/a_sync/a_sync/method.pyx
index 94e50d1..35fc235 100644
--- a/a_sync/a_sync/method.pyx
+++ b/a_sync/a_sync/method.pyx
@@ -11,7 +11,6 @@ asynchronously based on various conditions and configurations.
 import functools
 import weakref
 from inspect import isawaitable
-from libc.stdint cimport uintptr_t
 from logging import DEBUG, getLogger
 
 from a_sync._typing import *
@@ -413,7 +412,8 @@ class ASyncMethodDescriptorAsyncDefault(ASyncMethodDescriptor[I, P, T]):
         return bound
 
 
-cdef dict[uintptr_t, bint] _is_a_sync_instance_cache = {}
+# NOTE: keyed by the types, not their ids: an id is reused once a type is gone
+cdef object _is_a_sync_instance_cache = weakref.WeakKeyDictionary()
 
 cdef bint _is_a_sync_instance(object instance):
     """Checks if an instance is an ASync instance.
@@ -425,12 +425,11 @@ cdef bint _is_a_sync_instance(object instance):
         A boolean indicating if the instance is an ASync instance.
     """
     cdef object instance_type = type(instance)
-    cdef uintptr_t instance_type_uid = id(instance_type)
-    if instance_type_uid in _is_a_sync_instance_cache:
-        return _is_a_sync_instance_cache[instance_type_uid]
+    if instance_type in _is_a_sync_instance_cache:
+        return _is_a_sync_instance_cache[instance_type]
     from a_sync.a_sync.abstract import ASyncABC
     cdef bint is_a_sync = issubclass(instance_type, ASyncABC)
-    _is_a_sync_instance_cache[instance_type_uid] = is_a_sync
+    _is_a_sync_instance_cache[instance_type] = is_a_sync
     return is_a_sync
 
 
-- 
2.43.0


From 88ec2ee5352ae12d3242948e70154610ef0a69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 31/38] fix: a pruning pool's thread counts as idle only if no
 call arrived before it was counted

---
 a_sync/executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/a_sync/executor.py b/a_sync/executor.py
index d8149a0..6c12df9 100644
--- a/a_sync/executor.py
+++ b/a_sync/executor.py
@@ -318,11 +318,17 @@ def _worker(executor_reference, work_queue, initializer, initargs, timeout):  #
             except queue.Empty:
                 if not idle:
                     # increment idle count, only a thread without anything to do is idle
+                    idle = True
                     executor = executor_reference()
                     if executor is not None:
-                        executor._idle_semaphore.release()
+                        with executor._adjusting_lock:
+                            # an item which arrived meanwhile did not count on this thread
+                            idle = work_queue.empty()
+                            if idle:
+                                executor._idle_semaphore.release()
                     del executor
-                    idle = True
+                    if not idle:
+                        continue
                 try:  # NOTE: NEW
                     work_item = work_queue.get(block=True, timeout=timeout)  # NOTE: NEW
                 except queue.Empty:  # NOTE: NEW
-- 
2.43.0


From 98f6333b01fef489afce9e2ff3413b0e863c9aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:01 +0000
Subject: [PATCH 32/38] fix: a cached property's failed computation whose
 readers had left failed the next reader

---
 a_sync/a_sync/property.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/property.pyx b/a_sync/a_sync/property.pyx
index 65743c5..bea8bc6 100644
--- a/a_sync/a_sync/property.pyx
+++ b/a_sync/a_sync/property.pyx
@@ -431,7 +431,10 @@ class ASyncCachedPropertyDescriptor(
         """
         instance_state = self.get_instance_state(instance)
         task = instance_state.lock[self.field_name]
-        if isinstance(task, asyncio.Lock):
+        if isinstance(task, asyncio.Lock) or (
+            # a failed task whose readers all left before it failed must not fail new readers
+            task.done() and (task.cancelled() or task.exception())
+        ):
             # default behavior uses lock but we want to use a Task so all waiters wake up together
             task = ccreate_task_simple(self._fget(instance))
             instance_state.lock[self.field_name] = task
-- 
2.43.0


From 46189ed7d15937d70a7362c643aa87a80472c569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:11 +0000
Subject: [PATCH 33/38] fix: a singleton whose initialiser constructs its
 counterpart in the other mode deadlocked

---
 a_sync/a_sync/_meta.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/a_sync/a_sync/_meta.py b/a_sync/a_sync/_meta.py
index 113b263..82cf6c2 100644
--- a/a_sync/a_sync/_meta.py
+++ b/a_sync/a_sync/_meta.py
@@ -177,7 +177,8 @@ class ASyncSingletonMeta(ASyncMeta):
     def __init__(cls, name: str, bases: Tuple[type, ...], namespace: Dict[str, Any]) -> None:
         cls.__instances: Dict[bool, object] = {}
         """Dictionary to store singleton instances."""
-        cls.__lock = threading.Lock()
+        # NOTE: reentrant, since an initialiser may construct the instance for the other mode
+        cls.__lock = threading.RLock()
         """Lock to ensure thread-safe instance creation."""
         super().__init__(name, bases, namespace)
 
-- 
2.43.0


From 6e8132c57dddb62949d2f90f1dca43557b5b4bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:38 +0000
Subject: [PATCH 34/38] fix: a singleton given its flag positionally was stored
 under the class's default mode

---
 a_sync/a_sync/base.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/a_sync/a_sync/base.pyx b/a_sync/a_sync/base.pyx
index 2764231..a17a209 100644
--- a/a_sync/a_sync/base.pyx
+++ b/a_sync/a_sync/base.pyx
@@ -90,6 +90,15 @@ class ASyncGenericBase(ASyncABC):
         )
         return sync
 
+    @classmethod
+    def __a_sync_instance_will_be_sync__(cls, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> bool:
+        if args and not any(flag in kwargs for flag in VIABLE_FLAGS):
+            # the flag might be one of the positional args
+            for name, value in zip(list(_get_init_signature(cls).parameters)[1:], args):
+                if name in VIABLE_FLAGS:
+                    return validate_and_negate_if_necessary(name, value)
+        return super().__a_sync_instance_will_be_sync__(args, kwargs)
+
     def __init__(self):
         if type(self) is ASyncGenericBase:
             raise NotImplementedError(
-- 
2.43.0


From 17a881cfcdcb878f980194d2482e8ab673801f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 35/38] fix: equality and membership of done ASyncFutures
 answer in a running loop

---
 a_sync/future.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/a_sync/future.py b/a_sync/future.py
index d6d6125..68d44df 100644
--- a/a_sync/future.py
+++ b/a_sync/future.py
@@ -138,6 +138,25 @@ def _materialize(meta: "ASyncFuture[T]") -> T:
         ) from e
 
 
+def _get_materialized(*things: Any) -> Optional[Tuple[Any, ...]]:
+    """
+    Returns the values of `things` if all of them are available without awaiting anything, otherwise None.
+
+    Args:
+        *things: :class:`ASyncFuture` objects or non-awaitable items.
+    """
+    values = []
+    for thing in things:
+        if isinstance(thing, ASyncFuture):
+            if not thing.done():
+                return None
+            thing = _materialize(thing)
+        elif isawaitable(thing):
+            return None
+        values.append(thing)
+    return tuple(values)
+
+
 MetaNumeric = Union[Numeric, "ASyncFuture[int]", "ASyncFuture[float]", "ASyncFuture[Decimal]"]
 
 
@@ -340,6 +359,9 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
             >>> 'key' in future
             True
         """
+        if (values := _get_materialized(self, key)) is not None:
+            # the event loop might be running
+            return values[1] in values[0]
         return _materialize(
             ASyncFuture(self.__contains(key), dependencies=self.__list_dependencies(key))
         )
@@ -870,6 +892,9 @@ class ASyncFuture(concurrent.futures.Future, Awaitable[T]):
             >>> await result
             True
         """
+        if (values := _get_materialized(self, other)) is not None:
+            # the event loop might be running
+            return bool(values[0] == values[1])
         return bool(ASyncFuture(self.__eq(other), dependencies=self.__list_dependencies(other)))
 
     def __gt__(self, other) -> "ASyncFuture":
-- 
2.43.0


From 6aaa7ee029278c0b8e82d9ed2af432ffc1bcafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 36/38] fix: ASyncSorter awaits what any key callable returns,
 not only that of coroutine functions

---
 a_sync/iter.pyx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/a_sync/iter.pyx b/a_sync/iter.pyx
index 8e2104e..b758dca 100644
--- a/a_sync/iter.pyx
+++ b/a_sync/iter.pyx
@@ -731,7 +731,7 @@ class ASyncSorter(_ASyncView[T]):
         Returns:
             An async iterator that will yield the sorted items.
         """
-        cdef list items, sort_tasks
+        cdef list items, sort_tasks, sort_values
         cdef object obj
 
         if asyncio.iscoroutinefunction(self._function):
@@ -760,9 +760,21 @@ class ASyncSorter(_ASyncView[T]):
                 items = [obj async for obj in self.__aiterator__]
             else:
                 items = list(self.__iterator__)
-            items.sort(key=self._function, reverse=reverse)
-            for obj in items:
-                yield obj
+            if self._function is _key_if_no_key:
+                items.sort(reverse=reverse)
+                for obj in items:
+                    yield obj
+            else:
+                sort_values = []
+                for obj in items:
+                    sort_value = self._function(obj)
+                    if inspect.isawaitable(sort_value):
+                        sort_value = await sort_value
+                    sort_values.append(sort_value)
+                for sort_value, obj in sorted(
+                    zip(sort_values, items), key=itemgetter(0), reverse=reverse
+                ):
+                    yield obj
         self._consumed = True
 
 
-- 
2.43.0


From 860a4ba204af228dd406d1c9010d34295d3be298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 37/38] fix: TaskMapping passes keys after keyword arguments
 again and never runs a function a second time for its own TypeError

---
 a_sync/task.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/a_sync/task.py b/a_sync/task.py
index 8ec78e3..c03047b 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -159,7 +159,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
 
             @functools.wraps(wrapped_func)
             async def _wrapped_set_next(
-                *args: P.args, __a_sync_recursion: int = 0, **kwargs: P.kwargs
+                *args: P.args, _a_sync_recursion: int = 0, **kwargs: P.kwargs
             ) -> V:
                 try:
                     return await wrapped_func(*args, **kwargs)
@@ -167,8 +167,10 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     e.args = *e.args, f"wrapped:{self.__wrapped__}"
                     raise
                 except TypeError as e:
-                    if __a_sync_recursion > 2 or not (
-                        str(e).startswith(wrapped_func.__name__)
+                    if _a_sync_recursion > 2 or not (
+                        # an error of the function itself is not about our arguments, it must not run again
+                        e.__traceback__.tb_next is None
+                        and str(e).startswith(wrapped_func.__name__)
                         and "got multiple values for argument" in str(e)
                     ):
                         raise
@@ -185,7 +187,7 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                         return await _wrapped_set_next(
                             *new_args,
                             **new_kwargs,
-                            __a_sync_recursion=__a_sync_recursion + 1,
+                            _a_sync_recursion=_a_sync_recursion + 1,
                         )
                     except TypeError as e2:
                         raise (
-- 
2.43.0


From 7eec998eef41ad5f77ff9b243853e25bb59317cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 38/38] fix: a popping TaskMapping.max or min consumes the
 mapping even if results cannot be compared

---
 a_sync/task.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/a_sync/task.py b/a_sync/task.py
index c03047b..41e6431 100644
--- a/a_sync/task.py
+++ b/a_sync/task.py
@@ -392,6 +392,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     max = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
+        finally:
+            await self._if_pop_clear(pop)
         if max is _NO_RESULT:
             raise exceptions.EmptySequenceError("max() arg is an empty sequence") from None
         return max
@@ -406,6 +408,8 @@ class TaskMapping(DefaultDict[K, "asyncio.Task[V]"], AsyncIterable[Tuple[K, V]])
                     min = result
         except _EmptySequenceError:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
+        finally:
+            await self._if_pop_clear(pop)
         if min is _NO_RESULT:
             raise exceptions.EmptySequenceError("min() arg is an empty sequence") from None
         return min
-- 
2.43.0

