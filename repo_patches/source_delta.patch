From 144e834bf1f1ae90a44413e306488371c5f4ee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 01/39] fix: indexed queue conflated distinct items with equal
 hashes

---
 scaled/utility/queues/async_indexed_queue.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scaled/utility/queues/async_indexed_queue.py b/scaled/utility/queues/async_indexed_queue.py
index 18c7d98..6828d30 100644
--- a/scaled/utility/queues/async_indexed_queue.py
+++ b/scaled/utility/queues/async_indexed_queue.py
@@ -111,33 +111,30 @@ class _DoubleLinkedList:
 class _IndexedDoubleLinkedQueue:
     def __init__(self):
         self._double_linked_list = _DoubleLinkedList()
-        self._hash_map: Dict[int, _Node] = {}
+        self._item_to_node: Dict[Hashable, _Node] = {}
 
     def __contains__(self, item: Hashable):
-        key = hash(item)
-        return key in self._hash_map
+        return item in self._item_to_node
 
     def __len__(self):
         return self._double_linked_list.__len__()
 
     def put(self, item: Hashable):
-        key = hash(item)
-        if key in self._hash_map:
+        if item in self._item_to_node:
             raise KeyError(f"{self.__class__.__name__} already have item: {item}")
 
         node = _Node(item)
         self._double_linked_list.add_to_head(node)
-        self._hash_map[key] = node
+        self._item_to_node[item] = node
 
     def get(self):
         node = self._double_linked_list.remove_tail()
-        del self._hash_map[hash(node.value)]
+        del self._item_to_node[node.value]
         return node.value
 
     def remove(self, item: Hashable):
-        key = hash(item)
-        if key not in self._hash_map:
+        if item not in self._item_to_node:
             raise KeyError(f"{self.__class__.__name__} doesn't have item: {item}")
 
-        node = self._hash_map.pop(key)
+        node = self._item_to_node.pop(item)
         self._double_linked_list.remove(node)
-- 
2.43.0


From 08f9cd26ca3b580d1117d1bf251865f959f36770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 02/39] fix: asking the priority queue for its best priority
 detached the entry from its index

---
 scaled/utility/queues/async_priority_queue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 4f976c0..d69f85c 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -46,6 +46,4 @@ class PriorityQueue(Queue):
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
 
     def max_priority(self):
-        priority, item = heapq.heappop(self._queue)
-        heapq.heappush(self._queue, [priority, item])
-        return priority
+        return self._queue[0][0]
-- 
2.43.0


From ccc15317b2b739253ffba6b89dce05b3b26ad3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 03/39] fix: priority queue did not remove the entry when
 assertions are disabled

---
 scaled/utility/queues/async_priority_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index d69f85c..1087b83 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -35,7 +35,7 @@ class PriorityQueue(Queue):
         i = self._queue.index(entry)
         entry[0] = -1
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
-        assert heapq.heappop(self._queue) == entry
+        heapq.heappop(self._queue)
 
     def decrease_priority(self, item):
         # this operation should be O(log(n)), mark it as invalid entry in the heap is not good idea as those invalid
-- 
2.43.0


From e331bdf2f1ac3058fe0ca82bb13239fece6d9616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 04/39] fix: a task waiting for the first worker could not be
 canceled

---
 scaled/scheduler/allocators/mixins.py | 5 +++++
 scaled/scheduler/allocators/queued.py | 7 +++++++
 scaled/scheduler/mixins.py            | 4 ++++
 scaled/scheduler/task_manager.py      | 2 ++
 scaled/scheduler/worker_manager.py    | 3 +++
 5 files changed, 21 insertions(+)

diff --git a/scaled/scheduler/allocators/mixins.py b/scaled/scheduler/allocators/mixins.py
index 947be15..2a5858e 100644
--- a/scaled/scheduler/allocators/mixins.py
+++ b/scaled/scheduler/allocators/mixins.py
@@ -21,6 +21,11 @@ class TaskAllocator(metaclass=abc.ABCMeta):
         identity to number of tasks dictionary"""
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_for_worker(self):
+        """wait until there is at least one worker, it might not have capacity"""
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
         """assign task_id in allocator, return None means no available worker, otherwise will return worker been
diff --git a/scaled/scheduler/allocators/queued.py b/scaled/scheduler/allocators/queued.py
index a791c18..d012fba 100644
--- a/scaled/scheduler/allocators/queued.py
+++ b/scaled/scheduler/allocators/queued.py
@@ -54,7 +54,14 @@ class QueuedAllocator(TaskAllocator):
         mean = sum(worker_task_count.values()) / len(worker_task_count)
         return {worker: math.ceil(count - mean) for worker, count in worker_task_count.items() if count > mean}
 
+    async def wait_for_worker(self):
+        count, worker = await self._worker_queue.get()
+        await self._worker_queue.put([count, worker])
+
     async def assign_task(self, task_id: bytes) -> Optional[bytes]:
+        if self._worker_queue.empty():
+            return None
+
         count, worker = await self._worker_queue.get()
         if count == self._max_tasks_per_worker:
             await self._worker_queue.put([count, worker])
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 73851cb..591ffd6 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -99,6 +99,10 @@ class TaskManager(metaclass=abc.ABCMeta):
 
 
 class WorkerManager(metaclass=abc.ABCMeta):
+    @abc.abstractmethod
+    async def wait_for_worker(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def assign_task_to_worker(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/scheduler/task_manager.py b/scaled/scheduler/task_manager.py
index 1a67ae1..7a50d63 100644
--- a/scaled/scheduler/task_manager.py
+++ b/scaled/scheduler/task_manager.py
@@ -61,6 +61,8 @@ class VanillaTaskManager(TaskManager, Looper, Reporter):
         self._graph_manager = graph_manager
 
     async def routine(self):
+        # a task has to stay in the queue while there is no worker, otherwise it cannot be canceled
+        await self._worker_manager.wait_for_worker()
         task_id = await self._unassigned.get()
 
         if not await self._worker_manager.assign_task_to_worker(self._task_id_to_task[task_id]):
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index bc2149d..01d2f07 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -49,6 +49,9 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         self._binder = binder
         self._task_manager = task_manager
 
+    async def wait_for_worker(self):
+        await self._allocator.wait_for_worker()
+
     async def assign_task_to_worker(self, task: Task) -> bool:
         worker = await self._allocator.assign_task(task.task_id)
         if worker is None:
-- 
2.43.0


From 82de3d095150748db9a88fc919753210f43e71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 05/39] fix: deleting an unused function raised and was
 reported as refused

---
 scaled/scheduler/function_manager.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 25e25c1..ec99d5e 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -135,14 +135,12 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self.__send_function_response(client, function_id, FunctionResponseType.NotExists)
             return
 
-        if len(self._function_id_to_task_ids.get_values(function_id)) > 0:
+        if function_id in self._function_id_to_task_ids:
             await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
             return
 
         self._function_id_to_func_info.pop(function_id)
-        self._function_id_to_task_ids.remove_key(function_id)
-
-        await self.__send_function_response(client, function_id, FunctionResponseType.StillHaveTask)
+        await self.__send_function_response(client, function_id, FunctionResponseType.OK)
 
     async def __send_function_response(self, client: bytes, function_id: bytes, response_type: FunctionResponseType):
         await self._binder.send(client, FunctionResponse(response_type, function_id, b"", b""))
-- 
2.43.0


From 6c0d2d4f70c0b78108619013c9aa664f23993907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 06/39] fix: a function was dropped as idle right after a task
 longer than the retention time

---
 scaled/scheduler/function_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index ec99d5e..9666eb5 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -68,7 +68,8 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
         self._function_id_to_task_ids.add(function_id, task_id)
 
     async def on_task_done_function(self, task_id: bytes):
-        self._function_id_to_task_ids.remove_value(task_id)
+        function_id = self._function_id_to_task_ids.remove_value(task_id)
+        self._function_id_to_func_info[function_id].alive_since = time.time()
 
     async def routine(self):
         now = time.time()
-- 
2.43.0


From f6546b26fbca1e74e8f3ec4a03af44d9303cdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 07/39] fix: a graph node referring twice to the same node
 raised KeyError in scheduler

---
 scaled/scheduler/graph_manager.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 8ab0e8a..56b7ca0 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -187,9 +187,11 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
         for task_id in ready_task_ids:
             task_info = graph_info.tasks[task_id]
-            task_info.task.function_args = [
-                self.__get_argument(graph_task_id, task_id, arg) for arg in task_info.task.function_args
-            ]
+            function_args = [self.__get_argument(graph_task_id, arg) for arg in task_info.task.function_args]
+            for required_task_id in {arg.data for arg in task_info.task.function_args if arg.type == ArgumentType.Task}:
+                self.__release_task_result(graph_task_id, task_id, required_task_id)
+
+            task_info.task.function_args = function_args
             task_info.state = _TaskState.Running
             await self._task_manager.on_task_new(graph_info.client, task_info.task)
 
@@ -239,26 +241,20 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         return [graph_info.tasks[task_id].result for task_id in graph_info.target_task_ids]
 
-    def __get_argument(self, graph_task_id: bytes, task_id: bytes, argument: Argument) -> Argument:
+    def __get_argument(self, graph_task_id: bytes, argument: Argument) -> Argument:
         if argument.type == ArgumentType.Data:
             return argument
 
         assert argument.type == ArgumentType.Task
-        argument_task_id = argument.data
-
-        result = self.__get_task_result(graph_task_id, task_id, argument_task_id)
-        return Argument(ArgumentType.Data, result)
+        return Argument(ArgumentType.Data, self._graph_task_id_to_graph[graph_task_id].tasks[argument.data].result)
 
-    def __get_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes) -> bytes:
+    def __release_task_result(self, graph_task_id: bytes, task_id: bytes, argument_task_id: bytes):
         graph_info = self._graph_task_id_to_graph[graph_task_id]
         graph_info.dependencies.remove_value(argument_task_id, task_id)
 
-        task_info = graph_info.tasks[argument_task_id]
         if argument_task_id in graph_info.dependencies:
-            return task_info.result
+            return
 
         if argument_task_id not in graph_info.target_task_ids:
             self._task_id_to_graph_task_id.pop(argument_task_id)
             graph_info.tasks.pop(argument_task_id)
-
-        return task_info.result
-- 
2.43.0


From dcba1cf49d5da91667e4c34bee85e28969f21630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 08/39] fix: stopping a graph with a queued node raised
 KeyError in scheduler

---
 scaled/scheduler/graph_manager.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 56b7ca0..149dc16 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -209,6 +209,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
                 continue
 
             task_info = graph_info.tasks.pop(task_id)
+            self._task_id_to_graph_task_id.pop(task_id, None)
             if task_info.state == _TaskState.Inactive:
                 await self._function_manager.on_task_done_function(task_id)
             elif task_info.state == _TaskState.Running:
@@ -216,8 +217,6 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
             else:
                 pass
 
-            self._task_id_to_graph_task_id.pop(task_id, None)
-
         return graph_info
 
     def __mark_node_done(self, graph_task_id: bytes, result: TaskResult):
-- 
2.43.0


From 665ccad419895c5f256d498b37408901b8b720b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 09/39] fix: canceling an unknown, finished or not yet started
 graph raised in scheduler

---
 scaled/scheduler/graph_manager.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/scaled/scheduler/graph_manager.py b/scaled/scheduler/graph_manager.py
index 149dc16..eb802aa 100644
--- a/scaled/scheduler/graph_manager.py
+++ b/scaled/scheduler/graph_manager.py
@@ -1,5 +1,6 @@
 import dataclasses
 import enum
+import logging
 from asyncio import Queue
 from graphlib import TopologicalSorter
 from typing import Dict
@@ -85,6 +86,7 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         self._task_manager: Optional[TaskManager] = None
 
         self._unassigned: Queue = Queue()
+        self._unassigned_graph_task_ids: Set[bytes] = set()
 
         self._graph_task_id_to_graph: Dict[bytes, _Graph] = dict()
         self._task_id_to_graph_task_id: Dict[bytes, bytes] = dict()
@@ -104,9 +106,18 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
         self._task_manager = task_manager
 
     async def on_graph_task(self, client: bytes, graph_task: GraphTask):
+        self._unassigned_graph_task_ids.add(graph_task.task_id)
         await self._unassigned.put((client, graph_task))
 
     async def on_graph_task_cancel(self, graph_task_cancel: GraphTaskCancel):
+        if graph_task_cancel.task_id in self._unassigned_graph_task_ids:
+            self._unassigned_graph_task_ids.remove(graph_task_cancel.task_id)
+            return
+
+        if graph_task_cancel.task_id not in self._graph_task_id_to_graph:
+            logging.warning(f"cannot cancel graph is not running: task_id={graph_task_cancel.task_id.hex()}")
+            return
+
         await self.__clean_graph(graph_task_cancel.task_id)
 
     async def on_task_done(self, result: TaskResult) -> bool:
@@ -127,6 +138,10 @@ class GraphManager(GraphTaskManager, Looper, Reporter):
 
     async def routine(self):
         client, graph_task = await self._unassigned.get()
+        if graph_task.task_id not in self._unassigned_graph_task_ids:
+            return  # canceled before it was started
+
+        self._unassigned_graph_task_ids.remove(graph_task.task_id)
         await self.__add_new_graph(client, graph_task)
 
     async def statistics(self) -> Dict:
-- 
2.43.0


From 29bd8c82d85c01c97e92ebdee857abfecb5341de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 10/39] fix: a declared message type without codec raised
 KeyError at its receiver

---
 scaled/protocol/python/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index e55ba4f..c4adbf7 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -21,7 +21,6 @@ class MessageType(enum.Enum):
     GraphTask = b"GT"
     GraphTaskEcho = b"GE"
     GraphTaskCancel = b"GC"
-    GraphTaskCancelEcho = b"GX"
     GraphTaskResult = b"GR"
 
     BalanceRequest = b"BQ"
-- 
2.43.0


From 73e7c5dd38983da853350b74e15262e5fe54db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 11/39] fix: a late rebalancing answer detached a task from the
 worker it had moved to

---
 scaled/scheduler/main.py           | 2 +-
 scaled/scheduler/mixins.py         | 2 +-
 scaled/scheduler/worker_manager.py | 6 +++---
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/scaled/scheduler/main.py b/scaled/scheduler/main.py
index 1edcaa3..79d56cf 100644
--- a/scaled/scheduler/main.py
+++ b/scaled/scheduler/main.py
@@ -95,7 +95,7 @@ class Scheduler:
             return
 
         if isinstance(message, BalanceResponse):
-            await self._worker_manager.on_balance_response(message)
+            await self._worker_manager.on_balance_response(source, message)
             return
 
         if isinstance(message, GraphTask):
diff --git a/scaled/scheduler/mixins.py b/scaled/scheduler/mixins.py
index 591ffd6..22d1176 100644
--- a/scaled/scheduler/mixins.py
+++ b/scaled/scheduler/mixins.py
@@ -112,7 +112,7 @@ class WorkerManager(metaclass=abc.ABCMeta):
         raise NotImplementedError()
 
     @abc.abstractmethod
-    async def on_balance_response(self, response: BalanceResponse):
+    async def on_balance_response(self, source: bytes, response: BalanceResponse):
         raise NotImplementedError()
 
     @abc.abstractmethod
diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 01d2f07..1c8c0b4 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -80,13 +80,13 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
 
         await self._task_manager.on_task_done(task_result)
 
-    async def on_balance_response(self, response: BalanceResponse):
+    async def on_balance_response(self, source: bytes, response: BalanceResponse):
         task_ids = []
         for task_id in response.task_ids:
-            worker = self._allocator.remove_task(task_id)
-            if worker is None:
+            if self._allocator.get_assigned_worker(task_id) != source:
                 continue
 
+            self._allocator.remove_task(task_id)
             task_ids.append(task_id)
 
         await self.__reroute_tasks(task_ids=task_ids)
-- 
2.43.0


From 580c0f66265052c402f8faa232eb680dd59e738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 12/39] fix: canceling a task that a worker had just finished
 stopped the worker

---
 scaled/worker/agent/processor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index f378c55..2c530dc 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -115,7 +115,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return False
 
-        if self._processor_holder.task.task_id != task_id:
+        if self._processor_holder.task is None or self._processor_holder.task.task_id != task_id:
             return False
 
         self.restart_processor()
-- 
2.43.0


From 6ad5da05b5942b9f4c8b0e0c43ecabd0896fa33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 13/39] fix: a function arriving after its task was canceled
 stopped the worker

---
 scaled/worker/agent/processor_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index 2c530dc..e4953f2 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -102,7 +102,7 @@ class VanillaProcessorManager(Looper, ProcessorManager):
         if not self._processor_holder.initialized.is_set():
             return
 
-        if self._processor_holder.task.function_id != response.function_id:
+        if self._processor_holder.task is None or self._processor_holder.task.function_id != response.function_id:
             return
 
         if response.status == FunctionResponseType.NotExists:
-- 
2.43.0


From 2e8ef6eb85fef713820984285df3d67fc3292a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 14/39] fix: a task waiting for the worker's processor could
 not be canceled

---
 scaled/worker/agent/mixins.py            | 4 ++++
 scaled/worker/agent/processor_manager.py | 4 ++++
 scaled/worker/agent/task_manager.py      | 2 ++
 3 files changed, 10 insertions(+)

diff --git a/scaled/worker/agent/mixins.py b/scaled/worker/agent/mixins.py
index 9229fa2..eba558e 100644
--- a/scaled/worker/agent/mixins.py
+++ b/scaled/worker/agent/mixins.py
@@ -62,6 +62,10 @@ class ProcessorManager(metaclass=abc.ABCMeta):
     def on_function_response(self, response: FunctionResponse):
         raise NotImplementedError()
 
+    @abc.abstractmethod
+    async def wait_for_processor(self):
+        raise NotImplementedError()
+
     @abc.abstractmethod
     async def on_task(self, task: Task) -> bool:
         raise NotImplementedError()
diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index e4953f2..a22a789 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -89,6 +89,10 @@ class VanillaProcessorManager(Looper, ProcessorManager):
 
         raise TypeError(f"unknown function request type: {request.type}")
 
+    async def wait_for_processor(self):
+        async with self._processor_holder.task_wait_lock:
+            await self._processor_holder.initialized.wait()
+
     async def on_task(self, task: Task) -> bool:
         await self._processor_holder.task_wait_lock.acquire()
 
diff --git a/scaled/worker/agent/task_manager.py b/scaled/worker/agent/task_manager.py
index ac23f29..c19ed3a 100644
--- a/scaled/worker/agent/task_manager.py
+++ b/scaled/worker/agent/task_manager.py
@@ -64,6 +64,8 @@ class VanillaTaskManager(Looper, TaskManager):
         return self._queued_task_ids.qsize()
 
     async def __processing_task(self):
+        # a task has to stay in the queue until the processor can take it, otherwise it cannot be canceled
+        await self._processor_manager.wait_for_processor()
         task_id = await self._queued_task_ids.get()
         task = self._queued_task_id_to_task.pop(task_id)
         if await self._processor_manager.on_task(task):
-- 
2.43.0


From ed7eabcbbd3af6de0238eea81a247f23a7ea8807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 15/39] fix: a task whose function is gone blocked its worker
 for ever

---
 scaled/worker/agent/processor_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor_manager.py b/scaled/worker/agent/processor_manager.py
index a22a789..ca41e2b 100644
--- a/scaled/worker/agent/processor_manager.py
+++ b/scaled/worker/agent/processor_manager.py
@@ -17,6 +17,7 @@ from scaled.protocol.python.message import FunctionResponseType
 from scaled.protocol.python.message import MessageVariant
 from scaled.protocol.python.message import Task
 from scaled.protocol.python.message import TaskResult
+from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.logging.utility import setup_logger
 from scaled.utility.zmq_config import ZMQConfig
@@ -110,7 +111,10 @@ class VanillaProcessorManager(Looper, ProcessorManager):
             return
 
         if response.status == FunctionResponseType.NotExists:
-            logging.info(f"cannot get function for task={self._processor_holder.task.task_id.hex()}, must be canceled")
+            task_id = self._processor_holder.task.task_id
+            logging.info(f"cannot get function for task={task_id.hex()}, must be canceled")
+            await self.on_cancel_task(task_id)
+            await self._task_manager.on_task_result(TaskResult(task_id, TaskStatus.Canceled, 0, b""))
             return
 
         await self._connector_internal.send(response)
-- 
2.43.0


From 283d40e65a4a7863af4eb0030f9d3a9b9b2a364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 16/39] fix: a worker stopped when a heartbeat field did not
 fit its encoding

---
 scaled/protocol/python/message.py        | 2 +-
 scaled/worker/agent/heartbeat_manager.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index c4adbf7..f1e7756 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -307,7 +307,7 @@ class Heartbeat(_Message):
     has_task: bool
     task_lock: bool
 
-    FORMAT = "HQHQHI???"
+    FORMAT = "IQIQIQ???"
 
     def serialize(self) -> Tuple[bytes, ...]:
         return (
diff --git a/scaled/worker/agent/heartbeat_manager.py b/scaled/worker/agent/heartbeat_manager.py
index 71a0031..57ccbdc 100644
--- a/scaled/worker/agent/heartbeat_manager.py
+++ b/scaled/worker/agent/heartbeat_manager.py
@@ -46,7 +46,7 @@ class VanillaHeartbeatManager(Looper, HeartbeatManager):
             # not handling echo if we didn't send out heartbeat
             return
 
-        self._latency_us = int(((time.time_ns() - self._start_timestamp_ns) / 2) // 1_000)
+        self._latency_us = max(0, int(((time.time_ns() - self._start_timestamp_ns) / 2) // 1_000))
         self._start_timestamp_ns = 0
         self._timeout_manager.update_last_seen_time()
 
-- 
2.43.0


From 4f7f45b3495b2c0a6d009e3d0501cfd29a1988c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:47 +0000
Subject: [PATCH 17/39] fix: a worker that stopped because of an error left its
 processor running

---
 scaled/worker/worker.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 7a72651..55cdfa5 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -146,12 +146,12 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
             pass
         except TimeoutError as e:
             logging.info(f"Worker[{self.pid}]: {str(e)}")
+        finally:
+            await self._connector_external.send(DisconnectRequest(self._connector_external.identity))
 
-        await self._connector_external.send(DisconnectRequest(self._connector_external.identity))
-
-        self._connector_external.destroy()
-        self._processor_manager.destroy()
-        logging.info(f"Worker[{self.pid}]: quited")
+            self._connector_external.destroy()
+            self._processor_manager.destroy()
+            logging.info(f"Worker[{self.pid}]: quited")
 
     def __run_forever(self):
         self._loop.run_until_complete(self._task)
-- 
2.43.0


From c4443d6791aac5eba3105399fb5d4c2435d838c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 18/39] fix: a function that arrived twice stopped the
 processor

---
 scaled/worker/agent/processor/processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 47d23ab..1790020 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -102,8 +102,12 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
         logging.error(f"worker received unknown request function request type {request=}")
 
     def __on_receive_function_response(self, response: FunctionResponse):
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         task = self._current_task
+        if task is None or task.function_id != response.function_id:
+            logging.warning(f"no task waits for function_id={response.function_id.hex()}")
+            return
+
+        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         self._current_task = None
         self.__process_task(task)
 
-- 
2.43.0


From 59a929e0ee37a9c69a3ce50474c91e2882a7ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 19/39] fix: a function that cannot be loaded stopped the
 processor, one dropped at the wrong time was called as None

---
 scaled/worker/agent/processor/processor.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 1790020..bd12deb 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+from typing import Callable
 from typing import Optional
 
 import tblib.pickling_support
@@ -107,22 +108,25 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
             logging.warning(f"no task waits for function_id={response.function_id.hex()}")
             return
 
-        self._cache_cleaner.add_function(response.function_id, self._serializer.deserialize_function(response.content))
         self._current_task = None
-        self.__process_task(task)
+        self.__process_task(task, None, response.content)
 
     def __on_received_task(self, task: Task):
-        if self._cache_cleaner.get_function(task.function_id) is not None:
-            self.__process_task(task)
+        function = self._cache_cleaner.get_function(task.function_id)
+        if function is not None:
+            self.__process_task(task, function)
             return
 
         self._connector.send_immediately(FunctionRequest(FunctionRequestType.Request, task.function_id, b"", b""))
         self._current_task = task
 
-    def __process_task(self, task: Task):
+    def __process_task(self, task: Task, function: Optional[Callable], content: bytes = b""):
         begin = time.monotonic()
         try:
-            function = self._cache_cleaner.get_function(task.function_id)
+            if function is None:
+                function = self._serializer.deserialize_function(content)
+                self._cache_cleaner.add_function(task.function_id, function)
+
             args = tuple(self._serializer.deserialize_argument(arg.data) for arg in task.function_args)
             result = function(*args)
             result_bytes = self._serializer.serialize_result(result)
-- 
2.43.0


From 874a48109ddd576f0d4c542012624f3986337728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 20/39] fix: a task that raised SystemExit stopped its
 processor and was never answered

---
 scaled/worker/agent/processor/processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index bd12deb..5e8432c 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -134,7 +134,10 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
                 TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
             )
 
-        except Exception as e:
+        except KeyboardInterrupt:
+            raise
+
+        except BaseException as e:
             logging.exception(f"exception when processing task_id={task.task_id.hex()}:")
             self._connector.send_immediately(
                 TaskResult(
-- 
2.43.0


From da5c63249be1410c7c613fe7030ec5f2105ad465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 21/39] fix: a task that raised an exception which cannot be
 pickled stopped its processor

---
 scaled/worker/agent/processor/processor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scaled/worker/agent/processor/processor.py b/scaled/worker/agent/processor/processor.py
index 5e8432c..ab82378 100644
--- a/scaled/worker/agent/processor/processor.py
+++ b/scaled/worker/agent/processor/processor.py
@@ -3,6 +3,7 @@ import multiprocessing
 import pickle
 import threading
 import time
+import traceback
 from typing import Callable
 from typing import Optional
 
@@ -144,6 +145,14 @@ class Processor(multiprocessing.get_context("spawn").Process):  # type: ignore
                     task.task_id,
                     TaskStatus.Failed,
                     time.monotonic() - begin,
-                    pickle.dumps(e, protocol=pickle.HIGHEST_PROTOCOL),
+                    self.__serialize_exception(e),
                 )
             )
+
+    @staticmethod
+    def __serialize_exception(exception: BaseException) -> bytes:
+        try:
+            return pickle.dumps(exception, protocol=pickle.HIGHEST_PROTOCOL)
+        except Exception:
+            message = "".join(traceback.format_exception_only(type(exception), exception)).strip()
+            return pickle.dumps(RuntimeError(message), protocol=pickle.HIGHEST_PROTOCOL)
-- 
2.43.0


From 46b26b0c611d2319d8a7f9c2d54e33723faec6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:25 +0000
Subject: [PATCH 22/39] fix: the function cache of a processor was changed by
 two threads without a lock

---
 .../worker/agent/processor/cache_cleaner.py   | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/scaled/worker/agent/processor/cache_cleaner.py b/scaled/worker/agent/processor/cache_cleaner.py
index 31aa835..10c1dba 100644
--- a/scaled/worker/agent/processor/cache_cleaner.py
+++ b/scaled/worker/agent/processor/cache_cleaner.py
@@ -24,6 +24,7 @@ class CacheCleaner(threading.Thread):
         self._trim_memory_threshold_bytes = trim_memory_threshold_bytes
         self._function_retention_seconds = function_retention_seconds
 
+        self._lock = threading.Lock()
         self._cached_functions: Dict[bytes, Callable] = {}
         self._cached_functions_alive_since: Dict[bytes, float] = dict()
         self._process = psutil.Process(multiprocessing.current_process().pid)
@@ -36,28 +37,32 @@ class CacheCleaner(threading.Thread):
             time.sleep(CLEANUP_INTERVAL_SECONDS)
 
     def add_function(self, function_id: bytes, function: Callable):
-        self._cached_functions[function_id] = function
-        self._cached_functions_alive_since[function_id] = time.time()
+        with self._lock:
+            self._cached_functions[function_id] = function
+            self._cached_functions_alive_since[function_id] = time.time()
 
     def del_function(self, function_id: bytes):
-        self._cached_functions_alive_since.pop(function_id, None)
-        self._cached_functions.pop(function_id, None)
+        with self._lock:
+            self._cached_functions_alive_since.pop(function_id, None)
+            self._cached_functions.pop(function_id, None)
 
     def get_function(self, function_id: bytes) -> Optional[Callable]:
-        function = self._cached_functions.get(function_id)
-        if function is None:
-            return None
+        with self._lock:
+            function = self._cached_functions.get(function_id)
+            if function is None:
+                return None
 
-        self._cached_functions_alive_since[function_id] = time.time()
-        return function
+            self._cached_functions_alive_since[function_id] = time.time()
+            return function
 
     def __clean_function(self):
-        now = time.time()
-        idle_functions = [
-            function_id
-            for function_id, alive_since in self._cached_functions_alive_since.items()
-            if now - alive_since > self._function_retention_seconds
-        ]
+        with self._lock:
+            now = time.time()
+            idle_functions = [
+                function_id
+                for function_id, alive_since in self._cached_functions_alive_since.items()
+                if now - alive_since > self._function_retention_seconds
+            ]
         for function_id in idle_functions:
             self.del_function(function_id)
 
-- 
2.43.0


From 7c21e508422bb9db7ad58bd941ea86be96fa6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 23/39] fix: a reply could overtake the registration of its
 task in the client

---
 scaled/client.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 8e4bf20..6bd6a99 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -56,9 +56,6 @@ class Client:
             exit_callback=self.__on_exit,
             daemonic=True,
         )
-        self._connector.start()
-        logging.info(f"ScaledClient: connect to {address}")
-
         self._function_to_function_id_cache: Dict[Callable, Tuple[bytes, Tuple[bytes, bytes]]] = dict()
 
         self._task_id_to_task: Dict[bytes, Task] = dict()
@@ -69,6 +66,12 @@ class Client:
 
         self._graph_task_id_to_futures: Dict[bytes, List[Future]] = dict()
 
+        # calling threads and the connector's thread both move tasks in and out of the tables
+        self._lock = threading.Lock()
+
+        self._connector.start()
+        logging.info(f"ScaledClient: connect to {address}")
+
     def __del__(self):
         logging.info(f"ScaledClient: disconnect from {self._address}")
         self.disconnect()
@@ -87,10 +90,10 @@ class Client:
         self._task_id_to_task[task_id] = task
         self._task_id_to_function[task_id] = (function_name, function_bytes)
 
-        self.__on_buffer_task_send(task)
-
         future: Future = Future()
         self._task_id_to_future[task_id] = future
+
+        self.__on_buffer_task_send(task)
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
@@ -125,8 +128,8 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._connector.send(graph_task)
         self._graph_task_id_to_futures[graph_task.task_id] = futures
+        self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
         if not block:
@@ -186,20 +189,21 @@ class Client:
         self._task_id_to_future[task_echo.task_id].set_running_or_notify_cancel()
 
     def __on_buffer_task_send(self, task):
-        if task.function_id not in self._function_id_to_not_ready_tasks:
-            function_name, function_bytes = self._task_id_to_function[task.task_id]
-            self._connector.send(
-                FunctionRequest(FunctionRequestType.Add, task.function_id, function_name, function_bytes)
-            )
+        with self._lock:
+            if task.function_id not in self._function_id_to_not_ready_tasks:
+                function_name, function_bytes = self._task_id_to_function[task.task_id]
+                self._connector.send(
+                    FunctionRequest(FunctionRequestType.Add, task.function_id, function_name, function_bytes)
+                )
 
-        self._function_id_to_not_ready_tasks[task.function_id].append(task)
+            self._function_id_to_not_ready_tasks[task.function_id].append(task)
 
     def __on_function_response(self, response: FunctionResponse):
         assert response.status in {FunctionResponseType.OK, FunctionResponseType.Duplicated}
-        if response.function_id not in self._function_id_to_not_ready_tasks:
-            return
+        with self._lock:
+            tasks = self._function_id_to_not_ready_tasks.pop(response.function_id, [])
 
-        for task in self._function_id_to_not_ready_tasks.pop(response.function_id):
+        for task in tasks:
             self._connector.send(task)
 
     def __on_task_result(self, result: TaskResult):
-- 
2.43.0


From f10d138a181fd47dfa0e114f7b329babfba72bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 24/39] fix: a task rejected for lack of workers stopped the
 client's connector thread

---
 scaled/client.py             | 8 +++++++-
 scaled/utility/exceptions.py | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/scaled/client.py b/scaled/client.py
index 6bd6a99..6ffc2cd 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -36,6 +36,7 @@ from scaled.protocol.python.message import TaskResult
 from scaled.protocol.python.message import TaskStatus
 from scaled.protocol.python.serializer.default import DefaultSerializer
 from scaled.protocol.python.serializer.mixins import Serializer
+from scaled.utility.exceptions import NoWorkerAvailable
 from scaled.utility.exceptions import ScaledDisconnect
 from scaled.utility.zmq_config import ZMQConfig
 
@@ -180,7 +181,12 @@ class Client:
             return
 
         if task_echo.status == TaskEchoStatus.NoWorker:
-            raise NotImplementedError("please implement that handles no worker error")
+            self._task_id_to_task.pop(task_echo.task_id)
+            self._task_id_to_function.pop(task_echo.task_id)
+            self._task_id_to_future.pop(task_echo.task_id).set_exception(
+                NoWorkerAvailable("scheduler has no worker available for the task")
+            )
+            return
 
         assert task_echo.status == TaskEchoStatus.SubmitOK, f"Unknown task status: " f"{task_echo=}"
 
diff --git a/scaled/utility/exceptions.py b/scaled/utility/exceptions.py
index df22509..b619eef 100644
--- a/scaled/utility/exceptions.py
+++ b/scaled/utility/exceptions.py
@@ -1,2 +1,6 @@
 class ScaledDisconnect(Exception):
     pass
+
+
+class NoWorkerAvailable(Exception):
+    pass
-- 
2.43.0


From 3178992ba890cacd87978738c281f0dac5e4600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 25/39] fix: a task or graph reported as canceled or not found
 left its future pending for ever

---
 scaled/client.py             | 15 +++++++++++++++
 scaled/utility/exceptions.py |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/scaled/client.py b/scaled/client.py
index 6ffc2cd..ad112a7 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -4,6 +4,7 @@ import pickle
 import threading
 import uuid
 from collections import defaultdict
+from concurrent.futures import CancelledError
 from concurrent.futures import Future
 from graphlib import TopologicalSorter
 from inspect import signature
@@ -38,6 +39,7 @@ from scaled.protocol.python.serializer.default import DefaultSerializer
 from scaled.protocol.python.serializer.mixins import Serializer
 from scaled.utility.exceptions import NoWorkerAvailable
 from scaled.utility.exceptions import ScaledDisconnect
+from scaled.utility.exceptions import TaskNotFound
 from scaled.utility.zmq_config import ZMQConfig
 
 
@@ -225,6 +227,8 @@ class Client:
             future.set_exception(pickle.loads(result.result))
             return
 
+        future.set_exception(self.__get_exception_of_status(result.status))
+
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
         if graph_result.task_id not in self._graph_task_id_to_futures:
             return
@@ -241,6 +245,17 @@ class Client:
                 futures[i].set_exception(exception)
             return
 
+        exception = self.__get_exception_of_status(graph_result.status)
+        for future in futures:
+            future.set_exception(exception)
+
+    @staticmethod
+    def __get_exception_of_status(status: TaskStatus) -> Exception:
+        if status == TaskStatus.Canceled:
+            return CancelledError("task is canceled")
+
+        return TaskNotFound(f"task ended with status {status.name}")
+
     def __on_exit(self):
         if self._task_id_to_future:
             logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
diff --git a/scaled/utility/exceptions.py b/scaled/utility/exceptions.py
index b619eef..abdbf73 100644
--- a/scaled/utility/exceptions.py
+++ b/scaled/utility/exceptions.py
@@ -4,3 +4,7 @@ class ScaledDisconnect(Exception):
 
 class NoWorkerAvailable(Exception):
     pass
+
+
+class TaskNotFound(Exception):
+    pass
-- 
2.43.0


From 0b59699974d2cedacac7891b1c1caa37ceb83fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 26/39] fix: a failed graph resolved only the first of its
 futures

---
 scaled/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index ad112a7..1b6b426 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -241,8 +241,8 @@ class Client:
 
         if graph_result.status == TaskStatus.Failed:
             exception = pickle.loads(graph_result.results[0])
-            for i, result in enumerate(graph_result.results):
-                futures[i].set_exception(exception)
+            for future in futures:
+                future.set_exception(exception)
             return
 
         exception = self.__get_exception_of_status(graph_result.status)
-- 
2.43.0


From dd2c4fa3412143209f4f4da6e4c80d6e109d05ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 27/39] fix: a result that cannot be deserialized stopped the
 client's connector thread

---
 scaled/client.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 1b6b426..e49f3d5 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -220,11 +220,11 @@ class Client:
 
         future = self._task_id_to_future.pop(result.task_id)
         if result.status == TaskStatus.Success:
-            future.set_result(self._serializer.deserialize_result(result.result))
+            self.__set_result(future, result.result)
             return
 
         if result.status == TaskStatus.Failed:
-            future.set_exception(pickle.loads(result.result))
+            future.set_exception(self.__load_exception(result.result))
             return
 
         future.set_exception(self.__get_exception_of_status(result.status))
@@ -236,11 +236,11 @@ class Client:
         futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
         if graph_result.status == TaskStatus.Success:
             for i, result in enumerate(graph_result.results):
-                futures[i].set_result(self._serializer.deserialize_result(result))
+                self.__set_result(futures[i], result)
             return
 
         if graph_result.status == TaskStatus.Failed:
-            exception = pickle.loads(graph_result.results[0])
+            exception = self.__load_exception(graph_result.results[0])
             for future in futures:
                 future.set_exception(exception)
             return
@@ -249,6 +249,22 @@ class Client:
         for future in futures:
             future.set_exception(exception)
 
+    def __set_result(self, future: Future, payload: bytes):
+        try:
+            result = self._serializer.deserialize_result(payload)
+        except Exception as e:
+            future.set_exception(e)
+            return
+
+        future.set_result(result)
+
+    @staticmethod
+    def __load_exception(payload: bytes) -> BaseException:
+        try:
+            return pickle.loads(payload)
+        except Exception as e:
+            return e
+
     @staticmethod
     def __get_exception_of_status(status: TaskStatus) -> Exception:
         if status == TaskStatus.Canceled:
-- 
2.43.0


From 00effb41046d79701e539a3d6ecd24e89851bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 28/39] fix: a future canceled by its owner stopped the
 client's connector thread

---
 scaled/client.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index e49f3d5..8738567 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -6,6 +6,7 @@ import uuid
 from collections import defaultdict
 from concurrent.futures import CancelledError
 from concurrent.futures import Future
+from concurrent.futures import InvalidStateError
 from graphlib import TopologicalSorter
 from inspect import signature
 from typing import Any
@@ -185,8 +186,9 @@ class Client:
         if task_echo.status == TaskEchoStatus.NoWorker:
             self._task_id_to_task.pop(task_echo.task_id)
             self._task_id_to_function.pop(task_echo.task_id)
-            self._task_id_to_future.pop(task_echo.task_id).set_exception(
-                NoWorkerAvailable("scheduler has no worker available for the task")
+            self.__set_exception(
+                self._task_id_to_future.pop(task_echo.task_id),
+                NoWorkerAvailable("scheduler has no worker available for the task"),
             )
             return
 
@@ -224,10 +226,10 @@ class Client:
             return
 
         if result.status == TaskStatus.Failed:
-            future.set_exception(self.__load_exception(result.result))
+            self.__set_exception(future, self.__load_exception(result.result))
             return
 
-        future.set_exception(self.__get_exception_of_status(result.status))
+        self.__set_exception(future, self.__get_exception_of_status(result.status))
 
     def __on_graph_task_result(self, graph_result: GraphTaskResult):
         if graph_result.task_id not in self._graph_task_id_to_futures:
@@ -242,21 +244,31 @@ class Client:
         if graph_result.status == TaskStatus.Failed:
             exception = self.__load_exception(graph_result.results[0])
             for future in futures:
-                future.set_exception(exception)
+                self.__set_exception(future, exception)
             return
 
         exception = self.__get_exception_of_status(graph_result.status)
         for future in futures:
-            future.set_exception(exception)
+            self.__set_exception(future, exception)
 
     def __set_result(self, future: Future, payload: bytes):
         try:
             result = self._serializer.deserialize_result(payload)
         except Exception as e:
-            future.set_exception(e)
+            self.__set_exception(future, e)
             return
 
-        future.set_result(result)
+        try:
+            future.set_result(result)
+        except InvalidStateError:  # canceled by its owner
+            pass
+
+    @staticmethod
+    def __set_exception(future: Future, exception: BaseException):
+        try:
+            future.set_exception(exception)
+        except InvalidStateError:  # canceled by its owner
+            pass
 
     @staticmethod
     def __load_exception(payload: bytes) -> BaseException:
@@ -277,14 +289,14 @@ class Client:
             logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
             for task_id, future in self._task_id_to_future.items():
                 self._connector.send_immediately(TaskCancel(task_id))
-                future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
         if self._graph_task_id_to_futures:
             logging.info(f"canceling {len(self._graph_task_id_to_futures)} graph task(s)")
             for task_id, futures in self._graph_task_id_to_futures.items():
                 self._connector.send_immediately(GraphTaskCancel(task_id))
                 for future in futures:
-                    future.set_exception(ScaledDisconnect(f"disconnected from {self._address}"))
+                    self.__set_exception(future, ScaledDisconnect(f"disconnected from {self._address}"))
 
     def __get_function_id(self, fn: Callable) -> Tuple[bytes, Tuple[bytes, bytes]]:
         if fn in self._function_to_function_id_cache:
-- 
2.43.0


From 077eab3cd3acf2ee895f46832fbc9e1c390a8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 29/39] fix: repeated keys shifted the results of a graph to
 other keys

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 8738567..9bbde3a 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -128,6 +128,7 @@ class Client:
         }
         """
 
+        keys = list(dict.fromkeys(keys))
         node_name_to_data_argument, graph = self.__split_data_and_graph(graph)
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
-- 
2.43.0


From 070d6f3cc7fca04e53cf38c07e166d17d34f0ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 30/39] fix: map submitted nothing for an iterable that can be
 iterated only once

---
 scaled/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/client.py b/scaled/client.py
index 9bbde3a..7acb329 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -101,6 +101,7 @@ class Client:
         return future
 
     def map(self, fn: Callable, iterable: Iterable[Tuple[Any, ...]]) -> List[Any]:
+        iterable = list(iterable)
         if not all(isinstance(args, (tuple, list)) for args in iterable):
             raise TypeError("iterable should be list of arguments(list or tuple-like) of function")
 
-- 
2.43.0


From 8b12683462c6867ab66edba950afdb8927b74515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 31/39] fix: submit dropped, overrode or moved keyword
 arguments silently

---
 scaled/client.py | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index 7acb329..d778c9b 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -316,30 +316,19 @@ class Client:
 
     @staticmethod
     def __convert_kwargs_to_args(fn: Callable, args: Tuple[Any, ...], kwargs: Dict[str, Any]) -> Tuple:
-        all_params = [p for p in signature(fn).parameters.values()]
-
-        params = [p for p in all_params if p.kind in {p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD}]
-
-        if len(args) >= len(params):
-            return args
-
-        number_of_required = len([p for p in params if p.default is p.empty])
-
-        args_list = list(args)
-        kwargs = kwargs.copy()
-        kwargs.update({p.name: p.default for p in all_params if p.kind == p.KEYWORD_ONLY if p.default != p.empty})
-
-        for p in params[len(args_list) : number_of_required]:
-            try:
-                args_list.append(kwargs.pop(p.name))
-            except KeyError:
-                missing = tuple(p.name for p in params[len(args_list) : number_of_required])
-                raise TypeError(f"{fn} missing {len(missing)} arguments: {missing}")
-
-        for p in params[len(args_list) :]:
-            args_list.append(kwargs.pop(p.name, p.default))
-
-        return tuple(args_list)
+        bound = signature(fn).bind(*args, **kwargs)
+
+        # arguments are sent by position only
+        keyword_only = [
+            p.name
+            for p in bound.signature.parameters.values()
+            if p.kind in {p.KEYWORD_ONLY, p.VAR_KEYWORD} and p.name in bound.arguments
+        ]
+        if keyword_only:
+            raise TypeError(f"{fn} got arguments that can be passed by keyword only: {keyword_only}")
+
+        bound.apply_defaults()
+        return bound.args
 
     def __split_data_and_graph(
         self, graph: Dict[str, Union[Any, Tuple[Union[Callable, Any], ...]]]
-- 
2.43.0


From 5822716dadb62be8c861b782498edbf2f0042008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 32/39] fix: a task submitted while or after the client
 disconnects was never answered

---
 scaled/client.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index d778c9b..cd3e7aa 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -72,6 +72,7 @@ class Client:
 
         # calling threads and the connector's thread both move tasks in and out of the tables
         self._lock = threading.Lock()
+        self._disconnected = False
 
         self._connector.start()
         logging.info(f"ScaledClient: connect to {address}")
@@ -91,11 +92,12 @@ class Client:
             function_id,
             [Argument(ArgumentType.Data, self._serializer.serialize_argument(data)) for data in all_args],
         )
-        self._task_id_to_task[task_id] = task
-        self._task_id_to_function[task_id] = (function_name, function_bytes)
-
         future: Future = Future()
-        self._task_id_to_future[task_id] = future
+        with self._lock:
+            self.__check_connected()
+            self._task_id_to_task[task_id] = task
+            self._task_id_to_function[task_id] = (function_name, function_bytes)
+            self._task_id_to_future[task_id] = future
 
         self.__on_buffer_task_send(task)
         return future
@@ -134,7 +136,10 @@ class Client:
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
-        self._graph_task_id_to_futures[graph_task.task_id] = futures
+        with self._lock:
+            self.__check_connected()
+            self._graph_task_id_to_futures[graph_task.task_id] = futures
+
         self._connector.send(graph_task)
 
         return_futures: Dict[str, Future] = dict(zip(keys, futures))
@@ -154,6 +159,10 @@ class Client:
     def disconnect(self):
         self._stop_event.set()
 
+    def __check_connected(self):
+        if self._disconnected:
+            raise ScaledDisconnect(f"disconnected from {self._address}")
+
     def __on_receive(self, message: MessageVariant):
         if isinstance(message, TaskEcho):
             self.__on_task_echo(message)
@@ -287,6 +296,9 @@ class Client:
         return TaskNotFound(f"task ended with status {status.name}")
 
     def __on_exit(self):
+        with self._lock:
+            self._disconnected = True
+
         if self._task_id_to_future:
             logging.info(f"canceling {len(self._task_id_to_future)} task(s)")
             for task_id, future in self._task_id_to_future.items():
-- 
2.43.0


From c9df1553b595322b243c26529c1dec40c3cde395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:04 +0000
Subject: [PATCH 33/39] fix: a graph without computed nodes stopped the
 client's connector thread

---
 scaled/client.py                  | 4 ++++
 scaled/protocol/python/message.py | 5 ++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/scaled/client.py b/scaled/client.py
index cd3e7aa..76f106f 100644
--- a/scaled/client.py
+++ b/scaled/client.py
@@ -135,6 +135,10 @@ class Client:
         node_name_to_data_argument, graph = self.__split_data_and_graph(graph)
         self.__check_graph(node_name_to_data_argument, graph, keys)
 
+        if not graph:
+            # nothing to compute
+            return {}
+
         graph_task, futures = self.__construct_graph(node_name_to_data_argument, graph, keys)
         with self._lock:
             self.__check_connected()
diff --git a/scaled/protocol/python/message.py b/scaled/protocol/python/message.py
index f1e7756..670f71d 100644
--- a/scaled/protocol/python/message.py
+++ b/scaled/protocol/python/message.py
@@ -181,9 +181,8 @@ class GraphTask(_Message):
         function_bytes = list()
         function_bytes.append(struct.pack("I", len(self.functions)))
         function_bytes.extend(self.functions.keys())
-        names, content = zip(*self.functions.values())
-        function_bytes.extend(names)
-        function_bytes.extend(content)
+        function_bytes.extend(name for name, _ in self.functions.values())
+        function_bytes.extend(content for _, content in self.functions.values())
 
         graph_bytes = []
         for task in self.graph:
-- 
2.43.0


From cfc250e8629c59d31bc0f52b2ca433c395cd5403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:00 +0000
Subject: [PATCH 34/39] fix: removing an entry took another one out of a
 priority queue with negative priorities

---
 scaled/utility/queues/async_priority_queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scaled/utility/queues/async_priority_queue.py b/scaled/utility/queues/async_priority_queue.py
index 1087b83..6006d5c 100644
--- a/scaled/utility/queues/async_priority_queue.py
+++ b/scaled/utility/queues/async_priority_queue.py
@@ -1,4 +1,5 @@
 import heapq
+import math
 from asyncio import Queue
 from typing import Dict
 from typing import List
@@ -28,12 +29,12 @@ class PriorityQueue(Queue):
         return priority, item
 
     def remove(self, data):
-        # this operation is O(log(n)), first change priority to -1 and pop from top of the heap, mark it as invalid
+        # this operation is O(log(n)), first change priority to -inf and pop from top of the heap, mark it as invalid
         # entry in the heap is not good idea as those invalid, entry will never get removed, so we used heapq internal
         # function _siftdown to maintain min heap invariant
         entry = self._locator.pop(data)
         i = self._queue.index(entry)
-        entry[0] = -1
+        entry[0] = -math.inf  # type: ignore
         heapq._siftdown(self._queue, 0, i)  # type: ignore # noqa
         heapq.heappop(self._queue)
 
-- 
2.43.0


From f25c36cbc3fc6ce9b74947f4660abf9822639642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 35/39] fix: the combined scheduler and cluster ran its
 scheduler on the default event loop

---
 scaled/cluster/combo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/cluster/combo.py b/scaled/cluster/combo.py
index 0d100b2..b7773e4 100644
--- a/scaled/cluster/combo.py
+++ b/scaled/cluster/combo.py
@@ -57,6 +57,7 @@ class SchedulerClusterCombo:
             function_retention_seconds=function_retention_seconds,
             load_balance_seconds=load_balance_seconds,
             load_balance_trigger_times=load_balance_trigger_times,
+            event_loop=event_loop,
         )
 
         self._cluster.start()
-- 
2.43.0


From 30fdb845953f0a12a7005609aeef0b598c36723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 36/39] fix: a cluster of one worker left its processor running
 when it was terminated

---
 scaled/worker/worker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scaled/worker/worker.py b/scaled/worker/worker.py
index 55cdfa5..e9cd964 100644
--- a/scaled/worker/worker.py
+++ b/scaled/worker/worker.py
@@ -158,6 +158,7 @@ class Worker(multiprocessing.get_context("spawn").Process):  # type: ignore
 
     def __register_signal(self):
         self._loop.add_signal_handler(signal.SIGINT, self.__destroy)
+        self._loop.add_signal_handler(signal.SIGTERM, self.__destroy)
 
     def __destroy(self):
         self._task.cancel()
-- 
2.43.0


From 627e6dc18a438e3aa4e477a3aa9e1f0a72c0b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 37/39] fix: a worker that had ended kept the cluster from
 stopping the others

---
 scaled/cluster/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scaled/cluster/cluster.py b/scaled/cluster/cluster.py
index 4f1beaa..0523b2e 100644
--- a/scaled/cluster/cluster.py
+++ b/scaled/cluster/cluster.py
@@ -46,6 +46,9 @@ class Cluster(multiprocessing.get_context("spawn").Process):  # type: ignore
         assert args is not None
         logging.info(f"{self.__get_prefix()} received signal, shutting down")
         for worker in self._workers:
+            if not worker.is_alive():
+                continue
+
             logging.info(f"{self.__get_prefix()}: shutting down worker[{worker.pid}]")
             os.kill(worker.pid, signal.SIGINT)
 
-- 
2.43.0


From 5de0a51678fbf6b776c49677d67961cd131926e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:00 +0000
Subject: [PATCH 38/39] fix: status report counts the tasks of all functions
 that share a name

Two functions with the same name (e.g. two lambdas) overwrote each other's
number of tasks in the function_manager section of the status report.
---
 scaled/scheduler/function_manager.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/scaled/scheduler/function_manager.py b/scaled/scheduler/function_manager.py
index 9666eb5..424251f 100644
--- a/scaled/scheduler/function_manager.py
+++ b/scaled/scheduler/function_manager.py
@@ -90,12 +90,15 @@ class VanillaFunctionManager(FunctionManager, Looper, Reporter):
             await self._worker_manager.on_delete_function(function_id)
 
     async def statistics(self) -> Dict:
-        return {
-            "function_manager": {
-                self._function_id_to_func_info[k].function_name.decode(): len(v)
-                for k, v in self._function_id_to_task_ids.items()
-            }
-        }
+        # different functions may have the same name
+        function_name_to_number_of_tasks: Dict[str, int] = dict()
+        for function_id, task_ids in self._function_id_to_task_ids.items():
+            function_name = self._function_id_to_func_info[function_id].function_name.decode()
+            function_name_to_number_of_tasks[function_name] = (
+                function_name_to_number_of_tasks.get(function_name, 0) + len(task_ids)
+            )
+
+        return {"function_manager": function_name_to_number_of_tasks}
 
     async def __on_function_request(self, source: bytes, function_request: FunctionRequest):
         if function_request.function_id not in self._function_id_to_func_info:
-- 
2.43.0


From d3f4c714b534bab0b0a43e9d8a5f73ed41dd3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:22 +0000
Subject: [PATCH 39/39] fix: rebalancing never happened when one occurrence of
 the same advice was to trigger it

---
 scaled/scheduler/worker_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scaled/scheduler/worker_manager.py b/scaled/scheduler/worker_manager.py
index 1c8c0b4..bbe8669 100644
--- a/scaled/scheduler/worker_manager.py
+++ b/scaled/scheduler/worker_manager.py
@@ -143,9 +143,9 @@ class VanillaWorkerManager(WorkerManager, Looper, Reporter):
         if self._last_balance_advice != current_advice:
             self._last_balance_advice = current_advice
             self._load_balance_advice_same_count = 1
-            return
+        else:
+            self._load_balance_advice_same_count += 1
 
-        self._load_balance_advice_same_count += 1
         if self._load_balance_advice_same_count != self._load_balance_trigger_times:
             return
 
-- 
2.43.0

