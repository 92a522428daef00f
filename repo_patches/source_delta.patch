From 79b78eb94a758ab57146918cb400ac792464bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 01/43] fix: release the processing lock when the protected
 section raises

---
 asyncz/locks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/locks.py b/asyncz/locks.py
index d9412a0..ad0e088 100644
--- a/asyncz/locks.py
+++ b/asyncz/locks.py
@@ -36,9 +36,11 @@ class LockProtected(LockProtectedProtocol):
         self, blocking: bool = False, timeout: Optional[int] = None
     ) -> Generator[bool, None, None]:
         locked = self.lock.acquire(blocking, -1 if timeout is None else timeout)
-        yield locked
-        if locked:
-            self.lock.release()
+        try:
+            yield locked
+        finally:
+            if locked:
+                self.lock.release()
 
 
 class RLockProtected(LockProtected):
-- 
2.43.0


From 86becd8c7c17584ba761888e09dacef6cbb4c9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 02/43] fix: with_lock releases the file lock exactly when it
 was taken, also on an exception

---
 asyncz/file_locking.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asyncz/file_locking.py b/asyncz/file_locking.py
index c5705f0..7d39bc1 100644
--- a/asyncz/file_locking.py
+++ b/asyncz/file_locking.py
@@ -122,6 +122,9 @@ else:
 
 @contextmanager
 def with_lock(f: IO, flags: int) -> Generator[IO, None, None]:
-    lock(f, flags)
-    yield f
-    unlock(f)
+    locked = lock(f, flags)
+    try:
+        yield f
+    finally:
+        if locked:
+            unlock(f)
-- 
2.43.0


From f974f9fc5a2732d22b3d3c32298a786bb84d778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 03/43] fix: a cancelled pool future releases its task instance

---
 asyncz/executors/pool.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 2931f97..67a322a 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -27,15 +27,13 @@ class BasePoolExecutor(BaseExecutor):
         assert task_id is not None, "Cannot send decorator type task"
 
         def callback(fn: Any) -> None:
-            exc, _ = (
-                fn.exception_info()
-                if hasattr(fn, "exception_info")
-                else (fn.exception(), getattr(fn.exception(), "__traceback__", None))
-            )
-            if exc:
+            try:
+                events = fn.result()
+            except BaseException:
+                # also a cancelled future ends the run and must release its instance
                 self.run_task_error(task_id)
             else:
-                self.run_task_success(task_id, fn.result())
+                self.run_task_success(task_id, events)
 
         try:
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
-- 
2.43.0


From eabe52cd1115135710a6dbb3c2ee6eedec875a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 04/43] fix: replace a broken process pool by one of the same
 size

---
 asyncz/executors/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/executors/pool.py b/asyncz/executors/pool.py
index 67a322a..43ab0c0 100644
--- a/asyncz/executors/pool.py
+++ b/asyncz/executors/pool.py
@@ -41,7 +41,7 @@ class BasePoolExecutor(BaseExecutor):
             self.scheduler.loggers[self.logger_name].warning(
                 "Process pool is broken. Replacing pool with a new instance."
             )
-            self.pool = self.pool.__class__(self.pool.max_workers)
+            self.pool = self.pool.__class__(self.pool._max_workers)
             fn = self.pool.submit(run_task, task, task.store_alias, run_times, self.logger)
 
         fn.add_done_callback(callback)
-- 
2.43.0


From bc1859caa48309df8e02376cb5a2fbdfefea8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 05/43] fix: count a submission before it is sent, so nested
 submissions respect the limit

---
 asyncz/executors/base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asyncz/executors/base.py b/asyncz/executors/base.py
index eef1cae..670ffa3 100644
--- a/asyncz/executors/base.py
+++ b/asyncz/executors/base.py
@@ -65,8 +65,15 @@ class BaseExecutor(ExecutorType):
             if self.instances[task.id] >= task.max_instances:
                 raise MaximumInstancesError(task.id, task.max_instances)
 
-            self.do_send_task(task, run_times)
+            # count before sending: the run may start or even finish while it is sent
             self.instances[task.id] += 1
+            try:
+                self.do_send_task(task, run_times)
+            except BaseException:
+                self.instances[task.id] -= 1
+                if self.instances[task.id] == 0:
+                    del self.instances[task.id]
+                raise
 
     def run_task_success(self, task_id: str, events: list[TaskExecutionEvent]) -> None:
         """
-- 
2.43.0


From b284c40a7cd247a69513917d7fd06f3614542d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 06/43] fix: an 'and' trigger advances members that do not
 follow the current time instead of looping forever

---
 asyncz/triggers/combination.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asyncz/triggers/combination.py b/asyncz/triggers/combination.py
index 7fa2244..e1e1d9e 100644
--- a/asyncz/triggers/combination.py
+++ b/asyncz/triggers/combination.py
@@ -21,10 +21,20 @@ class AndTrigger(BaseCombinationTrigger):
     ) -> Union[datetime, None]:
         if now is None:
             now = datetime.now(timezone)
+        earliest: Optional[datetime] = None
         while True:
             trigger_times = []
             for trigger in self.triggers:
                 next_trigger_time = trigger.get_next_trigger_time(timezone, previous_time, now)
+                # a trigger that does not follow now is advanced until it catches up
+                while (
+                    next_trigger_time is not None
+                    and earliest is not None
+                    and next_trigger_time < earliest
+                ):
+                    next_trigger_time = trigger.get_next_trigger_time(
+                        timezone, next_trigger_time, now
+                    )
                 # bail out early
                 if next_trigger_time is None:
                     return None
@@ -32,8 +42,9 @@ class AndTrigger(BaseCombinationTrigger):
             if min(trigger_times) == max(trigger_times):
                 return self.apply_jitter(trigger_times[0], self.jitter, now)
             else:
-                # recheck
-                now = max(trigger_times)
+                # recheck from the latest proposal on
+                earliest = now = max(trigger_times)
+                previous_time = None
 
 
 class OrTrigger(BaseCombinationTrigger):
-- 
2.43.0


From 7181714f40606fa77d056b1772a64a3e243d8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 07/43] fix: updating a task's args with a one-shot iterable
 keeps its values

---
 asyncz/tasks/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 20ffc8f..ac4ce6f 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -119,6 +119,9 @@ class Task(BaseState, TaskType):  # type: ignore
 
             if isinstance(args, str) or not isinstance(args, Iterable):
                 raise TypeError("args must be a non-string iterable.")
+            if not isinstance(args, Sequence):
+                # keep the values of one-shot iterables, the check below reads them
+                args = tuple(args)
             if isinstance(kwargs, str) or not isinstance(kwargs, Mapping):
                 raise TypeError("kwargs must be a dict-like object.")
 
-- 
2.43.0


From d66652ee500c2483bfe0ffaf4dfcd2c9ce62dc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:46 +0000
Subject: [PATCH 08/43] fix: a store that fails during processing no longer
 stops the others or the next wakeup

---
 asyncz/schedulers/base.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index b8f0695..3bb7c85 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -1668,9 +1668,18 @@ class BaseScheduler(SchedulerType):
                 # threading lock
                 with self.store_lock:
                     for store_alias, store in self.stores.items():
-                        next_wakeup_time = self._process_tasks_of_store(
-                            now, next_wakeup_time, store_alias, store, events
-                        )
+                        try:
+                            next_wakeup_time = self._process_tasks_of_store(
+                                now, next_wakeup_time, store_alias, store, events
+                            )
+                        except Exception:
+                            # one failing store must not stop the others, nor the next wakeup
+                            self.loggers[self.logger_name].exception(
+                                f'Error processing the tasks of the store "{store_alias}".'
+                            )
+                            retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
+                            if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
+                                next_wakeup_time = retry_wakeup_time
             else:
                 retry_wakeup_time = now + timedelta(seconds=self.store_retry_interval)
                 if not next_wakeup_time or next_wakeup_time > retry_wakeup_time:
-- 
2.43.0


From d146bc12e0820c696ee37794923b05d880069772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:47 +0000
Subject: [PATCH 09/43] fix: stopping an isolated NativeAsyncIOScheduler no
 longer hangs

---
 asyncz/schedulers/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index bc75208..f0664f3 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -139,7 +139,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
             self.stop_timer()
             thread = self.event_loop_thread
             if thread:
-                self.event_loop.stop()
+                self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
         return result > 1
-- 
2.43.0


From 03aeca4a498936b926f6f28a4d0259ee84879a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 10/43] fix: coroutine shutdown tasks complete before the
 scheduler's own event loop is closed

---
 asyncz/schedulers/asyncio.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index f0664f3..fbf0643 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -30,6 +30,7 @@ class AsyncIOScheduler(BaseScheduler):
     isolated_event_loop: bool = False
     event_loop_thread: Optional[Thread] = None
     timer: Optional[Any] = None
+    _shutdown_coros: Sequence[Any] = ()
 
     def _init_new_loop(self, event: Event) -> None:
         # called in thread
@@ -38,9 +39,21 @@ class AsyncIOScheduler(BaseScheduler):
         try:
             loop.run_forever()
         finally:
+            loop.run_until_complete(self._run_shutdown_coros())
             loop.run_until_complete(loop.shutdown_asyncgens())
             loop.close()
 
+    async def _run_shutdown_coros(self) -> None:
+        coros, self._shutdown_coros = self._shutdown_coros, ()
+        await asyncio.gather(*coros)
+
+    def handle_shutdown_coros(self, coros: Sequence[Any]) -> None:
+        if self.event_loop_thread:
+            # the loop stops with the scheduler, its thread completes them afterwards
+            self._shutdown_coros = coros
+        else:
+            super().handle_shutdown_coros(coros)
+
     def start(self, paused: bool = False) -> bool:
         if not self.event_loop:
             try:
-- 
2.43.0


From cfdf4a23e271fa798f3b25176257a5bf28b84ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 11/43] fix: a surplus shutdown raises and leaves the scheduler
 startable

---
 asyncz/schedulers/asyncio.py | 4 ++++
 asyncz/schedulers/base.py    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index fbf0643..b842dbf 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -6,6 +6,8 @@ from collections.abc import Sequence
 from threading import Event, Thread
 from typing import TYPE_CHECKING, Any, Optional
 
+from asyncz.enums import SchedulerState
+from asyncz.exceptions import SchedulerNotRunningError
 from asyncz.executors.asyncio import AsyncIOExecutor
 from asyncz.schedulers.base import BaseScheduler
 from asyncz.schedulers.utils import run_in_event_loop
@@ -81,6 +83,8 @@ class AsyncIOScheduler(BaseScheduler):
                     thread.join()
 
     def shutdown(self, wait: bool = True) -> bool:
+        if self.state == SchedulerState.STATE_STOPPED:
+            raise SchedulerNotRunningError()
         # not decremented yet so +1
         result = self.ref_counter
         self._shutdown(wait)
diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 3bb7c85..11c08f5 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -183,6 +183,9 @@ class BaseScheduler(SchedulerType):
 
     def decr_refcount(self) -> bool:
         with self.ref_lock:
+            if self.ref_counter <= 0:
+                # not started: nothing to release
+                return True
             self.ref_counter -= 1
             # first start with 0
             if self.ref_counter > 0:
-- 
2.43.0


From 7b698ebe8ed1a935c2fdce3981d2468d69a17024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 12/43] fix: a scheduler whose start failed can be started
 again

---
 asyncz/schedulers/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 11c08f5..c9222a1 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -201,6 +201,16 @@ class BaseScheduler(SchedulerType):
         """
         if not self.inc_refcount():
             return False
+        try:
+            self._start(paused)
+        except BaseException:
+            # not started, so there is nothing to shut down
+            with self.ref_lock:
+                self.ref_counter = 0
+            raise
+        return True
+
+    def _start(self, paused: bool) -> None:
         # should not happen, ref_counter should protect
         assert self.state == SchedulerState.STATE_STOPPED
 
@@ -236,7 +246,6 @@ class BaseScheduler(SchedulerType):
 
         if not paused:
             self.wakeup()
-        return True
 
     def _shutdown_fn_helper(self, task: TaskType) -> None:
         assert task.fn is not None
-- 
2.43.0


From 832b945ac347f4bd91b87ddfc6bbde4bcc53b54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 13/43] fix: shutdown of the asyncio schedulers returns True
 when the scheduler is terminated

---
 asyncz/schedulers/asyncio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index b842dbf..ba6e425 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -88,7 +88,7 @@ class AsyncIOScheduler(BaseScheduler):
         # not decremented yet so +1
         result = self.ref_counter
         self._shutdown(wait)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.event_loop = maybe_ref(config.pop("event_loop", None))
@@ -159,7 +159,7 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
                 self.event_loop.call_soon_threadsafe(self.event_loop.stop)
                 self.event_loop = self.event_loop_thread = None
                 await asyncio.to_thread(thread.join)
-        return result > 1
+        return result <= 1
 
     def _setup(self, config: Any) -> None:
         self.isolated_event_loop = bool(config.pop("isolated_event_loop", False))
-- 
2.43.0


From 86bd71c87b7b7ad8babcd5833a3162b77a2e6afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 14/43] fix: a task paused before the scheduler starts stays
 paused

---
 asyncz/schedulers/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index c9222a1..64782ec 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -692,6 +692,14 @@ class BaseScheduler(SchedulerType):
 
             if store:
                 self.lookup_store(store).update_task(task)
+            elif "next_run_time" in updates:
+                # remember whether the pending task is paused for when the scheduler starts
+                self.pending_tasks = [
+                    (pending, replace_existing, updates["next_run_time"] is not None)
+                    if pending is task
+                    else (pending, replace_existing, start_task)
+                    for pending, replace_existing, start_task in self.pending_tasks
+                ]
 
         self.dispatch_event(TaskEvent(code=TASK_MODIFIED, task_id=task_id, store=store))
 
-- 
2.43.0


From b18dfc90aa99e6e319cdceb7c1f42e7db0e4cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 15/43] fix: a pending task that was replaced is no longer
 found, listed or started

---
 asyncz/schedulers/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 64782ec..3522340 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -600,6 +600,13 @@ class BaseScheduler(SchedulerType):
             assert fn_or_task.id is not None, "Cannot submit a decorator type task."
             with self.store_lock:
                 if self.state == SchedulerState.STATE_STOPPED:
+                    if replace_existing:
+                        self.pending_tasks = [
+                            pending
+                            for pending in self.pending_tasks
+                            if pending[0].id != fn_or_task.id
+                            or pending[0].store_alias != fn_or_task.store_alias
+                        ]
                     self.pending_tasks.append(
                         (
                             fn_or_task,
-- 
2.43.0


From 877526c156438b4f16ea430dc2411ea418844dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 16/43] fix: running a task now wakes the scheduler for the
 task's new next run time

---
 asyncz/schedulers/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 3522340..7e1b6ae 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -887,6 +887,8 @@ class BaseScheduler(SchedulerType):
             with self.store_lock:
                 self.lookup_store(store_alias).update_task(task)
 
+        if self.state == SchedulerState.STATE_RUNNING:
+            self.wakeup()
         return task
 
     def _coalesce_run_times(
-- 
2.43.0


From e7a7fb0a478c99d1c2db4a80fed97000975bba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 17/43] fix: updating, pausing and rescheduling accept a task
 instance

---
 asyncz/schedulers/base.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 7e1b6ae..22cf10d 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -677,17 +677,24 @@ class BaseScheduler(SchedulerType):
         """
         if isinstance(task_id, TaskType):
             assert task_id.id, "Cannot update a decorator type Task"
-            new_updates = self.shape.dump(
-                task_id,
-                context=ShapeContext(
-                    entity="task",
-                    operation="dump",
-                    scheduler_identity=self.identity,
-                ),
-            )
-            if not isinstance(new_updates, Mapping):
-                raise TypeError("Task snapshots must dump to a mapping.")
-            new_updates = dict(new_updates)
+            # take over the modifiable attributes, the others identify the task
+            new_updates = {
+                name: value
+                for name in (
+                    "fn",
+                    "args",
+                    "kwargs",
+                    "name",
+                    "mistrigger_grace_time",
+                    "coalesce",
+                    "max_instances",
+                    "trigger",
+                    "executor",
+                    "next_run_time",
+                )
+                if (value := getattr(task_id, name)) is not None
+                or name in ("mistrigger_grace_time", "next_run_time")
+            }
             new_updates.update(**updates)
             task_id = task_id.id
         else:
@@ -734,6 +741,9 @@ class BaseScheduler(SchedulerType):
         trigger = self.create_trigger(trigger, trigger_args)
         now = datetime.now(self.timezone)
         next_run_time = trigger.get_next_trigger_time(self.timezone, None, now)
+        if isinstance(task_id, TaskType):
+            assert task_id.id, "Cannot reschedule a decorator type Task"
+            task_id = task_id.id
         return self.update_task(task_id, store, trigger=trigger, next_run_time=next_run_time)
 
     def pause_task(self, task_id: Union[TaskType, str], store: Optional[str] = None) -> TaskType:
@@ -744,6 +754,9 @@ class BaseScheduler(SchedulerType):
             task_id: The identifier of the task.
             store: Alias of the task store that contains the task.
         """
+        if isinstance(task_id, TaskType):
+            assert task_id.id, "Cannot pause a decorator type Task"
+            task_id = task_id.id
         return self.update_task(task_id, store, next_run_time=None)
 
     def resume_task(
-- 
2.43.0


From ff0571d28066f1f348028cdcd1333c142e534dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 18/43] fix: resuming a pending task keeps to the store asked
 for

---
 asyncz/schedulers/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index 22cf10d..d15c873 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -773,7 +773,9 @@ class BaseScheduler(SchedulerType):
             assert task_id.id, "Cannot resume decorator style Task"
             task_id = task_id.id
         with self.store_lock:
-            task, store = self.lookup_task(task_id, store)
+            task, store_alias = self.lookup_task(task_id, store)
+            # a pending task is in no store yet, keep to the one asked for
+            store = store_alias or store
             now = datetime.now(self.timezone)
             next_run_time = task.trigger.get_next_trigger_time(self.timezone, None, now)  # type: ignore
 
-- 
2.43.0


From c561164ac18f41215b8cb90f0af07229b420e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:36 +0000
Subject: [PATCH 19/43] fix: nested starts of an isolated
 NativeAsyncIOScheduler keep its event loop

---
 asyncz/schedulers/asyncio.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/asyncz/schedulers/asyncio.py b/asyncz/schedulers/asyncio.py
index ba6e425..1c25833 100644
--- a/asyncz/schedulers/asyncio.py
+++ b/asyncz/schedulers/asyncio.py
@@ -129,13 +129,17 @@ class NativeAsyncIOScheduler(AsyncIOScheduler):
     _shutdown_handle: Any = None
 
     async def start(self, paused: bool = False) -> bool:  # type: ignore
-        if self.isolated_event_loop:
-            event = Event()
-            self.event_loop_thread = Thread(target=self._init_new_loop, args=[event], daemon=True)
-            self.event_loop_thread.start()
-            await asyncio.to_thread(event.wait)
-        else:
-            self.event_loop = asyncio.get_running_loop()
+        # nested starts keep the event loop of the first
+        if self.state == SchedulerState.STATE_STOPPED:
+            if not self.isolated_event_loop:
+                self.event_loop = asyncio.get_running_loop()
+            elif self.event_loop_thread is None:
+                event = Event()
+                self.event_loop_thread = Thread(
+                    target=self._init_new_loop, args=[event], daemon=True
+                )
+                self.event_loop_thread.start()
+                event.wait()
 
         return super(AsyncIOScheduler, self).start(paused)
 
-- 
2.43.0


From 58a2a16925715e80623159f678fa4db2a0b89f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 20/43] fix: argument checks treat keyword names like the call
 itself does

---
 asyncz/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 6401b6a..8288c91 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -345,13 +345,16 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
     unsatisfied_kwargs = []
     unmatched_args = list(args)
     unmatched_kwargs = list(kwargs)
-    has_varargs = has_var_kwargs = False
+    has_varargs = False
 
     try:
         sig = inspect.signature(func, follow_wrapped=False)
     except ValueError as e:
         raise AsynczException(detail=str(e)) from e
 
+    # the names of positional-only parameters are free for **kwargs
+    has_var_kwargs = any(param.kind == param.VAR_KEYWORD for param in sig.parameters.values())
+
     for param in sig.parameters.values():
         if param.kind == param.POSITIONAL_OR_KEYWORD:
             if param.name in unmatched_kwargs and unmatched_args:
@@ -365,7 +368,7 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
         elif param.kind == param.POSITIONAL_ONLY:
             if unmatched_args:
                 del unmatched_args[0]
-            elif param.name in unmatched_kwargs:
+            elif param.name in unmatched_kwargs and not has_var_kwargs:
                 unmatched_kwargs.remove(param.name)
                 positional_only_kwargs.append(param.name)
             elif param.default is param.empty:
@@ -377,8 +380,6 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
                 unsatisfied_kwargs.append(param.name)
         elif param.kind == param.VAR_POSITIONAL:
             has_varargs = True
-        elif param.kind == param.VAR_KEYWORD:
-            has_var_kwargs = True
 
     if pos_kwargs_conflicts:
         raise ValueError(
@@ -414,6 +415,9 @@ def check_callable_args(func: Callable[..., Any], args: Any, kwargs: Any) -> Non
             f"(allowed: {len(args) - len(unmatched_args)}, given in args: {len(args)})"
         )
 
+    if not all(isinstance(name, str) for name in kwargs):
+        raise ValueError("The names of keyword arguments must be strings.")
+
     if not has_var_kwargs and unmatched_kwargs:
         raise ValueError(
             "The target callable does not accept the following keyword arguments: {}".format(
-- 
2.43.0


From a891d5fd9ce1dae78c1ed6d0ddca23a6abc17c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 21/43] fix: cron expressions refuse trailing text and check
 steps of ranges ending at zero

---
 asyncz/triggers/cron/expressions.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/asyncz/triggers/cron/expressions.py b/asyncz/triggers/cron/expressions.py
index fdc6cf3..f7e7d89 100644
--- a/asyncz/triggers/cron/expressions.py
+++ b/asyncz/triggers/cron/expressions.py
@@ -99,7 +99,8 @@ class RangeExpression(AllExpression):
                 f"The last value ({self.last}) is higher than the maximum value ({MAX_VALUES[field_name]})."
             )
 
-        value_range = (self.last or MAX_VALUES[field_name]) - self.first
+        last = MAX_VALUES[field_name] if self.last is None else self.last
+        value_range = last - self.first
 
         if self.step and self.step > value_range:
             raise ValueError(
@@ -150,7 +151,7 @@ class RangeExpression(AllExpression):
 
 class MonthRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
     step: Optional[int] = None
 
@@ -195,7 +196,7 @@ class MonthRangeExpression(RangeExpression):
 
 class WeekdayRangeExpression(RangeExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?", re.IGNORECASE
+        r"(?P<first>[a-z]+)(?:-(?P<last>[a-z]+))?$", re.IGNORECASE
     )
 
     def __init__(
@@ -238,7 +239,7 @@ class WeekdayRangeExpression(RangeExpression):
 
 class WeekdayPositionExpression(AllExpression):
     regex: ClassVar[re.Pattern] = re.compile(
-        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))".format("|".join(OPTIONS)),
+        r"(?P<option_name>{}) +(?P<weekday_name>(?:\d+|\w+))$".format("|".join(OPTIONS)),
         re.IGNORECASE,
     )
 
@@ -288,7 +289,7 @@ class WeekdayPositionExpression(AllExpression):
 
 
 class LastDayOfMonthExpression(AllExpression):
-    regex: ClassVar[re.Pattern] = re.compile(r"last", re.IGNORECASE)
+    regex: ClassVar[re.Pattern] = re.compile(r"last$", re.IGNORECASE)
 
     def __init__(self, **kwargs: Any) -> None:
         super().__init__(step=None, **kwargs)
-- 
2.43.0


From 2a309828543b694790a509cb0eee6447678cde48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 22/43] fix: a cron search that carries past the last year ends
 instead of raising IndexError

---
 asyncz/triggers/cron/trigger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index b828db1..63fdb82 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -198,6 +198,9 @@ class CronTrigger(BaseTrigger):
                 if value == max_value:
                     field_number -= 1
                     count -= 1
+                    if count < 0:
+                        # no year is left
+                        return dateval, field_number
                 else:
                     values[field.name] = value + 1
                     count += 1
-- 
2.43.0


From afbecf497c4622affb5a5b9255690b9918328047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:56 +0000
Subject: [PATCH 23/43] fix: a cron schedule never fires at a time the clock
 skips that its fields do not match

---
 asyncz/triggers/cron/trigger.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 63fdb82..106633a 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -249,7 +249,7 @@ class CronTrigger(BaseTrigger):
             start_at = start_at.astimezone(timezone)
 
         fieldnum = 0
-        next_date = datetime_ceil(start_at)
+        next_date = normalize(datetime_ceil(start_at))
 
         while 0 <= fieldnum < len(self.fields):
             field = self.fields[fieldnum]
@@ -261,7 +261,8 @@ class CronTrigger(BaseTrigger):
             elif next_value > curr_value:
                 if field.real:
                     next_date = self.set_field_value(next_date, fieldnum, next_value, timezone)
-                    fieldnum += 1
+                    # a value the clock skips was moved on: start over from there
+                    fieldnum = fieldnum + 1 if field.get_value(next_date) == next_value else 0
                 else:
                     next_date, fieldnum = self.increment_field_value(next_date, fieldnum)
             else:
-- 
2.43.0


From 6aefcc8b6a53ce82be3b395e6a3b4d26f3a0d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:13 +0000
Subject: [PATCH 24/43] fix: a fraction of a second in a date text is read as a
 decimal fraction

---
 asyncz/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 8288c91..7c14b7a 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -147,6 +147,8 @@ def to_datetime(
             sign = 1 if tzname[0] == "+" else -1
             tz = dttz(sign * timedelta(hours=hours, minutes=minutes))
 
+        if values["microsecond"]:
+            values["microsecond"] = values["microsecond"].ljust(6, "0")
         values = {k: int(v or 0) for k, v in values.items()}
         _datetime = datetime(**values)  # type: ignore
     else:
-- 
2.43.0


From e50e7d81315a0e7503c2ef4a988c1e611b2600e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:13 +0000
Subject: [PATCH 25/43] fix: a dashboard buffer asked for no entries returns
 none

---
 asyncz/contrib/dashboard/audit.py        | 2 ++
 asyncz/contrib/dashboard/events.py       | 2 ++
 asyncz/contrib/dashboard/history.py      | 2 ++
 asyncz/contrib/dashboard/logs/storage.py | 3 +++
 4 files changed, 9 insertions(+)

diff --git a/asyncz/contrib/dashboard/audit.py b/asyncz/contrib/dashboard/audit.py
index 4f4b1f2..c09612b 100644
--- a/asyncz/contrib/dashboard/audit.py
+++ b/asyncz/contrib/dashboard/audit.py
@@ -80,6 +80,8 @@ class MemoryAuditTrailStorage:
         q: str | None = None,
         limit: int = 200,
     ) -> list[AuditRecord]:
+        if limit <= 0:
+            return []
         action_filter = (action or "").strip().lower()
         status_filter = (status or "").strip().lower()
         needle = (q or "").strip().lower()
diff --git a/asyncz/contrib/dashboard/events.py b/asyncz/contrib/dashboard/events.py
index 7dc4147..661eba6 100644
--- a/asyncz/contrib/dashboard/events.py
+++ b/asyncz/contrib/dashboard/events.py
@@ -117,6 +117,8 @@ class MemorySchedulerEventStorage:
         q: str | None = None,
         limit: int = 200,
     ) -> list[SchedulerEventRecord]:
+        if limit <= 0:
+            return []
         category_filter = (category or "").strip().lower()
         name_filter = (name or "").strip().lower()
         needle = (q or "").strip().lower()
diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index 0bc53e4..eab6143 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -97,6 +97,8 @@ class MemoryRunHistoryStorage:
         q: str | None = None,
         limit: int = 200,
     ) -> list[RunRecord]:
+        if limit <= 0:
+            return []
         needle = (q or "").strip().lower()
         status_filter = (status or "").strip().lower()
         source_filter = (source or "").strip().lower()
diff --git a/asyncz/contrib/dashboard/logs/storage.py b/asyncz/contrib/dashboard/logs/storage.py
index e8a8a1c..f8b4edc 100644
--- a/asyncz/contrib/dashboard/logs/storage.py
+++ b/asyncz/contrib/dashboard/logs/storage.py
@@ -184,6 +184,9 @@ class MemoryLogStorage(LogStorage):
         Returns:
             A list of matching `LogEntry` objects.
         """
+        if limit <= 0:
+            return []
+
         # Prepare filters for comparison speed
         level_upper: str | None = level.upper() if level else None
         needle: str = (q or "").lower().strip()
-- 
2.43.0


From bbcba86bc4af1181fabc0bf5d7de6a1c91ce1f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:13 +0000
Subject: [PATCH 26/43] fix: runs of different tasks and stores never share a
 run id

---
 asyncz/contrib/dashboard/history.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/asyncz/contrib/dashboard/history.py b/asyncz/contrib/dashboard/history.py
index eab6143..c9e017e 100644
--- a/asyncz/contrib/dashboard/history.py
+++ b/asyncz/contrib/dashboard/history.py
@@ -430,8 +430,7 @@ def _run_key(
 
 
 def _run_id(key: tuple[str, str | None, str]) -> str:
-    raw = "|".join(part or "" for part in key)
-    return hashlib.sha256(raw.encode()).hexdigest()[:20]
+    return hashlib.sha256(repr(key).encode()).hexdigest()[:20]
 
 
 def _task_metadata(scheduler: Any, task_id: str, store: str | None) -> dict[str, Any]:
-- 
2.43.0


From 2582d2ba45f982e127a38e39562f7508dc0e60b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:07 +0000
Subject: [PATCH 27/43] fix: a date text followed by a line break or with
 digits of another script is refused

---
 asyncz/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 7c14b7a..8c2734d 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -29,7 +29,8 @@ DATE_REGEX = re.compile(
     r"(?P<year>\d{4})-(?P<month>\d{1,2})-(?P<day>\d{1,2})"
     r"(?:[ T](?P<hour>\d{1,2}):(?P<minute>\d{1,2}):(?P<second>\d{1,2})"
     r"(?:\.(?P<microsecond>\d{1,6}))?"
-    r"(?P<timezone>Z|[+-]\d\d:\d\d)?)?$"
+    r"(?P<timezone>Z|[+-]\d\d:\d\d)?)?\Z",
+    re.ASCII,
 )
 
 
-- 
2.43.0


From 335d058eca8e009d23ff8a3b3d0ba1f633627203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 28/43] fix: sign-in pages stay reachable when the dashboard is
 mounted at /

---
 asyncz/contrib/dashboard/admin/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/core.py b/asyncz/contrib/dashboard/admin/core.py
index 3fc2e63..1850afb 100644
--- a/asyncz/contrib/dashboard/admin/core.py
+++ b/asyncz/contrib/dashboard/admin/core.py
@@ -262,12 +262,12 @@ class AsynczAdmin:
         ]
 
         # 2. Build Top-Level Routes (Mounting everything under the final prefix)
-        routes: list[Path | Include] = [
-            Include(path=base_norm, routes=inner_routes, name="dashboard")
-        ]
+        routes: list[Path | Include] = []
         if self.enable_login:
-            # Add /login and /logout handlers if authentication is enabled at root level
+            # Add /login and /logout handlers if authentication is enabled at root level,
+            # ahead of a dashboard mounted at "/", which would match their paths as well
             routes.extend(self.add_sign_in_pages())
+        routes.append(Include(path=base_norm, routes=inner_routes, name="dashboard"))
 
         # 3. Build Middleware Stack (Order is critical)
         middlewares: list[DefineMiddleware] = []
-- 
2.43.0


From 1af8aae7f8a52f64422fdebda61307d2594c9aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 29/43] fix: the gate strips the mount prefix at a slash only
 and quotes the page to return to

---
 asyncz/contrib/dashboard/admin/middleware/auth_gate.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
index 61303bd..4a0e3b1 100644
--- a/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
+++ b/asyncz/contrib/dashboard/admin/middleware/auth_gate.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections.abc import Awaitable, Callable, Iterable
 from typing import Any
+from urllib.parse import quote
 
 from lilya.requests import Request
 from lilya.responses import PlainText, RedirectResponse, Response
@@ -64,8 +65,9 @@ class AuthGateMiddleware:
 
         # Normalize to child-relative path by stripping the mount prefix
         child_path: str = path
-        if mount_prefix and path.startswith(mount_prefix):
-            child_path = path[len(mount_prefix) :] or "/"
+        base: str = mount_prefix.rstrip("/")
+        if base and (path == base or path.startswith(base + "/")):
+            child_path = path[len(base) :] or "/"
         if not child_path.startswith("/"):
             child_path = "/" + child_path
 
@@ -90,7 +92,7 @@ class AuthGateMiddleware:
         login_url: str = f"{mount_prefix}{self.login_path}"
 
         # Determine the target URL after login
-        next_q: str = f"?next={path}"
+        next_q: str = f"?next={quote(path)}"
 
         response: Response
         if request.headers.get("hx-request") == "true":
-- 
2.43.0


From a718b06aacb6e554df3efdf1f2661ef4553279eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 30/43] fix: remote preview passes the time on and answers bad
 requests, remote add sends explicit None

---
 asyncz/contrib/dashboard/remote.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/asyncz/contrib/dashboard/remote.py b/asyncz/contrib/dashboard/remote.py
index ec53e29..da5876b 100644
--- a/asyncz/contrib/dashboard/remote.py
+++ b/asyncz/contrib/dashboard/remote.py
@@ -402,12 +402,16 @@ def create_remote_scheduler_app(scheduler: SchedulerType, *, token: str | None =
         if response := _require_token(request, token):
             return response
         task_id = request.path_params["task_id"]
-        count = int(request.query_params.get("count") or 5)
-        result = scheduler.preview_task_runs(
-            task_id,
-            request.query_params.get("store") or None,
-            count=count,
-        )
+        now = request.query_params.get("now")
+        try:
+            result = scheduler.preview_task_runs(
+                task_id,
+                request.query_params.get("store") or None,
+                count=int(request.query_params.get("count") or 5),
+                now=datetime.fromisoformat(now) if now else None,
+            )
+        except Exception as exc:
+            return _error(exc, status_code=400, task_id=task_id)
         if result is None:
             return _error(TaskLookupError(task_id), status_code=404, task_id=task_id)
         return _success(result)
@@ -862,7 +866,8 @@ class RemoteSchedulerClient:
             "store": store,
             "executor": executor,
         }.items():
-            if value is not undefined and value is not None:
+            # an explicit None is a value of its own, like in "no grace time" and "paused"
+            if value is not undefined:
                 payload[key] = value
         data = self._request("POST", "/tasks", payload)
         task = self._task_from_data(data)
-- 
2.43.0


From 3f9b46ea821ddd8ea967f148916778ed4bdd107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 31/43] fix: restored triggers keep their interval size,
 late-run permission and plain state; fractional grace times are stored

---
 asyncz/datastructures.py        | 6 +++++-
 asyncz/state.py                 | 4 ++++
 asyncz/triggers/base.py         | 1 +
 asyncz/triggers/cron/trigger.py | 1 +
 asyncz/triggers/date.py         | 5 ++++-
 asyncz/triggers/interval.py     | 7 +++++++
 6 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/asyncz/datastructures.py b/asyncz/datastructures.py
index afcac42..c1ee857 100644
--- a/asyncz/datastructures.py
+++ b/asyncz/datastructures.py
@@ -22,6 +22,7 @@ class DateState(BaseDatastructureState):
     """
 
     run_at: datetime
+    allow_mistrigger_by_default: bool = False
 
 
 class IntervalState(BaseDatastructureState):
@@ -34,6 +35,7 @@ class IntervalState(BaseDatastructureState):
     end_at: Optional[datetime] = None
     interval: Optional[timedelta] = None
     jitter: Optional[int] = None
+    allow_mistrigger_by_default: bool = False
 
 
 class CombinationState(BaseDatastructureState):
@@ -43,6 +45,7 @@ class CombinationState(BaseDatastructureState):
 
     triggers: list[Any]
     jitter: Optional[int] = None
+    allow_mistrigger_by_default: bool = False
 
 
 class CronState(BaseDatastructureState):
@@ -55,6 +58,7 @@ class CronState(BaseDatastructureState):
     end_at: Optional[datetime] = None
     fields: Optional[list[Any]] = None
     jitter: Optional[int] = None
+    allow_mistrigger_by_default: bool = False
 
 
 class TaskState(BaseDatastructureState):  # type: ignore
@@ -67,7 +71,7 @@ class TaskState(BaseDatastructureState):  # type: ignore
     coalesce: Optional[bool] = None
     trigger: Optional[TriggerType] = None
     executor: Optional[str] = None
-    mistrigger_grace_time: Optional[int] = None
+    mistrigger_grace_time: Optional[Union[int, float]] = None
     max_instances: Optional[int] = None
     next_run_time: Optional[datetime] = None
     scheduler: Optional[Any] = None
diff --git a/asyncz/state.py b/asyncz/state.py
index ae4b0ba..a5e9b51 100644
--- a/asyncz/state.py
+++ b/asyncz/state.py
@@ -14,6 +14,10 @@ class BaseState(BaseModel):
         """
         Retrieves the data pickled and sets the state for Pydantic compatible fashion.
         """
+        if isinstance(state, dict):
+            # no state model of its own, this is the state pydantic makes
+            super().__setstate__(state)
+            return self
         state.model_config.update(self.model_config)
         object_setattr(self, "__dict__", state.__dict__)
         object_setattr(self, "__pydantic_fields_set__", state.__pydantic_fields_set__)
diff --git a/asyncz/triggers/base.py b/asyncz/triggers/base.py
index 278db54..320a59d 100644
--- a/asyncz/triggers/base.py
+++ b/asyncz/triggers/base.py
@@ -66,6 +66,7 @@ class BaseCombinationTrigger(BaseTrigger):
         state = CombinationState(
             triggers=triggers,
             jitter=self.jitter,
+            allow_mistrigger_by_default=self.allow_mistrigger_by_default,
         )
         return state
 
diff --git a/asyncz/triggers/cron/trigger.py b/asyncz/triggers/cron/trigger.py
index 106633a..7753205 100644
--- a/asyncz/triggers/cron/trigger.py
+++ b/asyncz/triggers/cron/trigger.py
@@ -283,6 +283,7 @@ class CronTrigger(BaseTrigger):
             end_at=self.end_at,
             fields=self.fields,
             jitter=self.jitter,
+            allow_mistrigger_by_default=self.allow_mistrigger_by_default,
         )
         return state
 
diff --git a/asyncz/triggers/date.py b/asyncz/triggers/date.py
index faf599d..3591513 100644
--- a/asyncz/triggers/date.py
+++ b/asyncz/triggers/date.py
@@ -43,7 +43,10 @@ class DateTrigger(BaseTrigger):
         """
         Handles the conversion to a dict to be able to pickle.
         """
-        state = DateState(run_at=self.run_at)
+        state = DateState(
+            run_at=self.run_at,
+            allow_mistrigger_by_default=self.allow_mistrigger_by_default,
+        )
         return state
 
     def __str__(self) -> str:
diff --git a/asyncz/triggers/interval.py b/asyncz/triggers/interval.py
index 6573031..e83d3af 100644
--- a/asyncz/triggers/interval.py
+++ b/asyncz/triggers/interval.py
@@ -107,9 +107,16 @@ class IntervalTrigger(BaseTrigger):
             end_at=self.end_at,
             interval=self.interval,
             jitter=self.jitter,
+            allow_mistrigger_by_default=self.allow_mistrigger_by_default,
         )
         return state
 
+    def __setstate__(self, state: Any) -> Any:
+        super().__setstate__(state)
+        # derived from the interval, so not part of the state
+        self.__dict__["interval_size"] = timedelta_seconds(self.interval)
+        return self
+
     def __str__(self) -> str:
         return f"interval[{self.interval}]"
 
-- 
2.43.0


From 0ee04ae89a370dc92b5684c0d35926941d981700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 32/43] fix: jobs of a job file or registry are added

---
 asyncz/cli/loader.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/loader.py b/asyncz/cli/loader.py
index e5f18fa..3282f0b 100644
--- a/asyncz/cli/loader.py
+++ b/asyncz/cli/loader.py
@@ -6,7 +6,6 @@ from pathlib import Path
 from typing import Any
 
 from asyncz.schedulers import AsyncIOScheduler
-from asyncz.tasks import Task
 
 
 async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -> int:
@@ -21,9 +20,9 @@ async def load_jobs_from_module(scheduler: AsyncIOScheduler, module_path: str) -
 
     added = 0
     for item in entries:  # type: ignore
-        task = Task(func=item["func"], name=item.get("name"))
         scheduler.add_task(
-            task,
+            item["func"],
+            name=item.get("name"),
             trigger=item["trigger"],
             args=item.get("args", []),
             kwargs=item.get("kwargs", {}),
@@ -57,9 +56,12 @@ async def load_jobs_from_config(scheduler: AsyncIOScheduler, path: str) -> int:
     added = 0
     for job in data.get("jobs", []):
         trig = parse_trigger(cron=job.get("cron"), interval=job.get("interval"), at=job.get("at"))
-        task = Task(func=job["func"], name=job.get("name"))
         scheduler.add_task(
-            task, trigger=trig, args=job.get("args", []), kwargs=job.get("kwargs", {})
+            job["func"],
+            name=job.get("name"),
+            trigger=trig,
+            args=job.get("args", []),
+            kwargs=job.get("kwargs", {}),
         )
         added += 1
     return added
-- 
2.43.0


From eb2683b68c791fb5e4f5270f52a49a527d0432e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 33/43] fix: interval units are ASCII letters and a date
 without an offset is local time

---
 asyncz/cli/types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asyncz/cli/types.py b/asyncz/cli/types.py
index d69e152..01670ed 100644
--- a/asyncz/cli/types.py
+++ b/asyncz/cli/types.py
@@ -24,9 +24,9 @@ def parse_interval(text: str) -> float:
     Raises:
         ValueError: If the interval string is in an invalid format.
     """
-    # Regex breakdown: (?i) case-insensitive, (\d+) one or more digits (value),
+    # Regex breakdown: (?ai) case-insensitive ASCII, (\d+) one or more digits (value),
     # \s* optional whitespace, ([smh]) unit.
-    m: re.Match[str] | None = re.fullmatch(r"(?i)(\d+)\s*([smh])", text.strip())
+    m: re.Match[str] | None = re.fullmatch(r"(?ai)(\d+)\s*([smh])", text.strip())
 
     if not m:
         raise ValueError("Invalid interval, use Ns/Nm/Nh (e.g., 10s, 5m, 2h)")
@@ -75,4 +75,7 @@ def parse_trigger(*, cron: str | None, interval: str | None, at: str | None) ->
     when: dt.datetime = dt.datetime.fromisoformat(at)  # type: ignore[arg-type]
     from asyncz.triggers.date import DateTrigger
 
+    if when.tzinfo is None:
+        # a time without an offset is local time
+        when = when.astimezone()
     return DateTrigger(run_at=when)
-- 
2.43.0


From 942a45ea3d69e881c3e1d728634b33b4b8985a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 34/43] fix: store options take the documented alias=value form

---
 asyncz/cli/utils.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/asyncz/cli/utils.py b/asyncz/cli/utils.py
index 28b821c..9493eae 100644
--- a/asyncz/cli/utils.py
+++ b/asyncz/cli/utils.py
@@ -5,6 +5,7 @@ from collections.abc import Callable
 from dataclasses import dataclass
 from pathlib import Path
 from typing import Any, cast
+from urllib.parse import unquote, urlsplit
 
 from asyncz.cli._parsers import parse_store_option
 
@@ -147,22 +148,42 @@ def parse_store(spec: str) -> tuple[str, dict[str, Any]]:
     alias = alias.strip()
     value = value.strip()
 
+    if not alias or not value:
+        raise ValueError("Store must be 'alias=value' (value can be 'memory' or a URL).")
+
     if value == "memory":
         return alias, {"type": "memory"}
 
     if value.startswith("file://"):
-        return alias, {"type": "file", "path": value.removeprefix("file://")}
+        return alias, {"type": "file", "directory": value.removeprefix("file://")}
 
     if value.startswith("redis://"):
-        return alias, {"type": "redis", "url": value}
+        return alias, _redis_config(value)
 
     if value.startswith("mongo://") or value.startswith("mongodb://"):
-        return alias, {"type": "mongodb", "url": value}
+        return alias, {"type": "mongodb", "host": value}
 
     # fallback to sqlalchemy for anything else that looks like a DB URL
     return alias, {"type": "sqlalchemy", "database": value}
 
 
+def _redis_config(url: str) -> dict[str, Any]:
+    """
+    Splits a redis URL into the arguments of the redis task store.
+    """
+    parts = urlsplit(url)
+    cfg: dict[str, Any] = {"type": "redis", "database": int(parts.path.strip("/") or 0)}
+    for key, value in (
+        ("host", parts.hostname),
+        ("port", parts.port),
+        ("username", parts.username),
+        ("password", parts.password),
+    ):
+        if value is not None:
+            cfg[key] = unquote(value) if isinstance(value, str) else value
+    return cfg
+
+
 def build_executors_map(executors: list[str]) -> dict[str, dict[str, Any]]:
     """
     Translates a list of CLI executor specification strings into the final
@@ -219,6 +240,11 @@ def build_stores_map(specs: list[str]) -> dict[str, dict[str, Any]]:
 
     stores: dict[str, dict[str, Any]] = {}
     for i, spec in enumerate(specs):
+        if "=" in spec:
+            named, cfg = parse_store(spec)
+            stores[named] = cfg
+            continue
+
         parsed: tuple[str | Any, ...] = parse_store_option(spec)
 
         if not isinstance(parsed, tuple):
-- 
2.43.0


From f76300dfb0fdbb5c9fe4e148f18b3528166ea9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 35/43] fix: negative intervals of forms are refused

---
 asyncz/contrib/dashboard/controllers/_helpers.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/asyncz/contrib/dashboard/controllers/_helpers.py b/asyncz/contrib/dashboard/controllers/_helpers.py
index 35e0a0c..952074b 100644
--- a/asyncz/contrib/dashboard/controllers/_helpers.py
+++ b/asyncz/contrib/dashboard/controllers/_helpers.py
@@ -93,13 +93,11 @@ def parse_trigger_config(
 
     if tt == "interval":
         try:
-            if tv.endswith("s"):
-                return "interval", {"seconds": int(tv[:-1])}
-            if tv.endswith("m"):
-                return "interval", {"minutes": int(tv[:-1])}
-            if tv.endswith("h"):
-                return "interval", {"hours": int(tv[:-1])}
-            return "interval", {"seconds": int(tv)}
+            unit = {"s": "seconds", "m": "minutes", "h": "hours"}.get(tv[-1:], "seconds")
+            amount = int(tv[:-1] if tv.endswith(("s", "m", "h")) else tv)
+            if amount < 0:
+                raise ValueError("an interval is not negative")
+            return "interval", {unit: amount}
         except ValueError:
             raise ValueError(
                 f"Invalid interval value: {tv}. Must be like '10s' or '300'."
-- 
2.43.0


From b3e24fc981b69e4a50e768dfe1461a924b07bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:00 +0000
Subject: [PATCH 36/43] fix: arguments that are no JSON array or object and
 grace times that are no finite number are refused

---
 asyncz/cli/commands/add.py                    | 5 +++++
 asyncz/contrib/dashboard/controllers/tasks.py | 9 +++++----
 asyncz/tasks/base.py                          | 4 +++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/asyncz/cli/commands/add.py b/asyncz/cli/commands/add.py
index 20fee74..542ecf0 100644
--- a/asyncz/cli/commands/add.py
+++ b/asyncz/cli/commands/add.py
@@ -6,6 +6,7 @@ import json
 from collections.abc import Callable
 from typing import Annotated, Any
 
+import click
 from sayer import Argument, Option, command, info
 
 from asyncz.cli.bootstrap_loader import load_bootstrap_scheduler
@@ -56,7 +57,11 @@ def add(
 
         # 2) Parse JSON args/kwargs
         pos: list[Any] = json.loads(args) if args else []
+        if not isinstance(pos, list):
+            raise click.BadParameter("args must be a JSON array.")
         kw: dict[str, Any] = json.loads(kwargs) if kwargs else {}
+        if not isinstance(kw, dict):
+            raise click.BadParameter("kwargs must be a JSON object.")
 
         # 3) Resolve scheduler
         bootstrap_mode = bool(bootstrap)
diff --git a/asyncz/contrib/dashboard/controllers/tasks.py b/asyncz/contrib/dashboard/controllers/tasks.py
index ba805fa..36e5a6d 100644
--- a/asyncz/contrib/dashboard/controllers/tasks.py
+++ b/asyncz/contrib/dashboard/controllers/tasks.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import contextlib
 import json
+import math
 from collections.abc import Callable
 from typing import Any
 
@@ -138,7 +139,7 @@ def _parse_mistrigger_grace_time(value: str) -> float | int | None:
     if not value:
         return None
     parsed = float(value)
-    if parsed <= 0:
+    if not 0 < parsed < math.inf:
         raise ValueError("misfire grace time must be a positive number.")
     return int(parsed) if parsed.is_integer() else parsed
 
@@ -409,14 +410,14 @@ class TaskCreateController(DashboardMixin, Controller):
         trigger_type: str = (form.get("trigger_type") or "interval").strip()
         trigger_value: str = (form.get("trigger_value") or "10s").strip()
 
-        # Parse args/kwargs JSON
+        # Raw args/kwargs JSON
         raw_args: str = (form.get("args") or "").strip()
         raw_kwargs: str = (form.get("kwargs") or "").strip()
-        args: list[Any] = json.loads(raw_args) if raw_args else []
-        kwargs: dict[str, Any] = json.loads(raw_kwargs) if raw_kwargs else {}
 
         # Import callable and parse trigger
         try:
+            args: list[Any] = _parse_json_list(raw_args)
+            kwargs: dict[str, Any] = _parse_json_object(raw_kwargs)
             func: Callable[..., Any] | str
             if getattr(self.scheduler, "is_remote", False):
                 func = callable_path
diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index ac4ce6f..528a158 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -1,4 +1,5 @@
 import inspect
+import math
 from collections.abc import Callable, Iterable, Mapping, Sequence
 from datetime import datetime, tzinfo
 from typing import Any, Optional, Union, cast
@@ -145,7 +146,8 @@ class Task(BaseState, TaskType):  # type: ignore
         if "mistrigger_grace_time" in updates:
             mistrigger_grace_time = updates.pop("mistrigger_grace_time")
             if mistrigger_grace_time is not None and (
-                not isinstance(mistrigger_grace_time, (float, int)) or mistrigger_grace_time <= 0
+                not isinstance(mistrigger_grace_time, (float, int))
+                or not 0 < mistrigger_grace_time < math.inf
             ):
                 raise TypeError(
                     "mistrigger_grace_time must be either None or a positive float/integer."
-- 
2.43.0


From 931ca0b53a12d6f15e90902edc4c4a38e6106a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:41 +0000
Subject: [PATCH 37/43] fix: a store restores the records of its own
 representation without a registration

---
 asyncz/stores/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asyncz/stores/base.py b/asyncz/stores/base.py
index 70d3cfd..a9d169d 100644
--- a/asyncz/stores/base.py
+++ b/asyncz/stores/base.py
@@ -143,8 +143,9 @@ class BaseStore(BaseStateExtra, StoreType):
         Restore a task state from a legacy record or versioned envelope.
 
         Legacy `TaskState` pickles are accepted for backward compatibility. New
-        envelopes must declare the expected entity, version, and registered Shape
-        before restoration proceeds.
+        envelopes must declare the expected entity, version, and either the Shape
+        of this store (which needs no registration) or a registered Shape before
+        restoration proceeds.
         """
 
         if isinstance(stored_state, TaskState):
@@ -163,7 +164,11 @@ class BaseStore(BaseStateExtra, StoreType):
                 f"Unsupported Asyncz task state version: {stored_state.version}."
             )
 
-        shape = resolve_shape(stored_state.shape)
+        shape = (
+            self.shape
+            if stored_state.shape == self.shape.name
+            else resolve_shape(stored_state.shape)
+        )
         context = ShapeContext(
             entity=stored_state.entity,
             operation="restore",
-- 
2.43.0


From e6c72ea71f85fe4db9d82bdf419029ace20b8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:46 +0000
Subject: [PATCH 38/43] fix: a task that cannot be serialized leaves the stored
 records of a file store as they are

---
 asyncz/stores/file.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/asyncz/stores/file.py b/asyncz/stores/file.py
index 0bbb060..3f08261 100644
--- a/asyncz/stores/file.py
+++ b/asyncz/stores/file.py
@@ -138,27 +138,27 @@ class FileStore(BaseStore):
     def add_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
+        # a task that cannot be serialized must not leave an empty record behind
+        data = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
         try:
             with task_path.open("xb") as write_ob, with_lock(write_ob, LOCK_EX):
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
+                write_ob.write(data)
         except FileExistsError:
             raise ConflictIdError(task.id) from None
 
     def update_task(self, task: TaskType) -> None:
         self.check_task_id(task.id)
         task_path = self.directory / f"{task.id}{self.suffix}"
+        # a task that cannot be serialized must not destroy the stored record
+        data = self.conditional_encrypt(
+            pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
+        )
         try:
             with task_path.open("r+b") as write_ob, with_lock(write_ob, LOCK_EX):
                 write_ob.truncate()
-                write_ob.write(
-                    self.conditional_encrypt(
-                        pickle.dumps(self.serialize_task_state(task), self.pickle_protocol)
-                    )
-                )
+                write_ob.write(data)
         except FileNotFoundError:
             raise TaskLookupError(task.id) from None
 
-- 
2.43.0


From 0a6c9de9e3f6248db1d349dae3b831847ac31ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:23 +0000
Subject: [PATCH 39/43] fix: a decorator task without a scheduler or trigger
 raised TypeError on decoration

---
 asyncz/tasks/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index 528a158..bc4863b 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -277,10 +277,10 @@ class Task(BaseState, TaskType):  # type: ignore
         new_dict.pop("submitted", None)
         new_dict.pop("fn_reference", None)
         new_dict["fn"] = fn
-        if new_dict["store_alias"] is None:
-            del new_dict["store_alias"]
-        if new_dict["executor"] is None:
-            del new_dict["executor"]
+        # what the decorator leaves open is left open for the task
+        for key in ("store_alias", "executor", "trigger", "next_run_time"):
+            if new_dict[key] is None:
+                del new_dict[key]
         replace_existing = True
         if not new_dict.get("id"):
             replace_existing = False
-- 
2.43.0


From e25ace64227cd587be3dbbda69f2569a87105d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:23 +0000
Subject: [PATCH 40/43] fix: a decorator task defined as paused was scheduled
 on decoration

---
 asyncz/tasks/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asyncz/tasks/base.py b/asyncz/tasks/base.py
index bc4863b..f18b997 100644
--- a/asyncz/tasks/base.py
+++ b/asyncz/tasks/base.py
@@ -289,8 +289,11 @@ class Task(BaseState, TaskType):  # type: ignore
         task = self.__class__(**new_dict)
         scheduler = self.scheduler
         if scheduler is not None:
-            # in decorator mode tasks are simply started
-            scheduler.add_task(task, replace_existing=replace_existing)
+            # in decorator mode tasks are simply started, except when defined as paused
+            options: dict[str, Any] = {}
+            if "next_run_time" in self.model_fields_set and self.next_run_time is None:
+                options["next_run_time"] = None
+            scheduler.add_task(task, replace_existing=replace_existing, **options)
         if not replace_existing:
             if not hasattr(fn, "asyncz_tasks"):
                 object_setattr(fn, "asyncz_tasks", [])
-- 
2.43.0


From cf1bc37809562fee4fde1b7deff1bcf03c905f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:23 +0000
Subject: [PATCH 41/43] fix: redis tasks with run times before 1970 were never
 due

---
 asyncz/stores/redis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asyncz/stores/redis.py b/asyncz/stores/redis.py
index 3bfb0df..0dba240 100644
--- a/asyncz/stores/redis.py
+++ b/asyncz/stores/redis.py
@@ -67,7 +67,7 @@ class RedisStore(BaseStore):
 
     def get_due_tasks(self, now: datetime) -> list["TaskType"]:
         timestamp = datetime_to_utc_timestamp(now)
-        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, 0, timestamp)  # type: ignore
+        ids: list[str] = self.redis.zrangebyscore(self.run_times_key, "-inf", timestamp)  # type: ignore
         if not ids:
             return []
         states: list[Any] = self.redis.hmget(self.tasks_key, ids)  # type: ignore
-- 
2.43.0


From 2a7352ce148b5a95eeb48cdc1adb3b8f75c59989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:23 +0000
Subject: [PATCH 42/43] fix: rounding up in the second pass of a repeated hour
 went back an hour

---
 asyncz/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asyncz/utils.py b/asyncz/utils.py
index 8c2734d..78ca702 100644
--- a/asyncz/utils.py
+++ b/asyncz/utils.py
@@ -220,7 +220,11 @@ def datetime_ceil(dateval: datetime) -> datetime:
     Rounds the given datetime object upwards.
     """
     if dateval.microsecond > 0:
-        return dateval + timedelta(seconds=1, microseconds=-dateval.microsecond)
+        delta = timedelta(seconds=1, microseconds=-dateval.microsecond)
+        if dateval.tzinfo is None:
+            return dateval + delta
+        # adding to the wall time would leave the second pass of a repeated hour
+        return (dateval.astimezone(dttz.utc) + delta).astimezone(dateval.tzinfo)
     return dateval
 
 
-- 
2.43.0


From ddae7d00350c19a84345f5afd49f26191a786431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:23 +0000
Subject: [PATCH 43/43] fix: a default of no grace time was replaced by one
 second

---
 asyncz/schedulers/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asyncz/schedulers/base.py b/asyncz/schedulers/base.py
index d15c873..eeb3a83 100644
--- a/asyncz/schedulers/base.py
+++ b/asyncz/schedulers/base.py
@@ -649,7 +649,6 @@ class BaseScheduler(SchedulerType):
         task_defaults = self.shape.dump(
             self.task_defaults,
             context=task_default_context,
-            exclude_none=True,
         )
         if not isinstance(task_defaults, Mapping):
             raise TypeError("Task defaults must dump to a mapping.")
-- 
2.43.0

