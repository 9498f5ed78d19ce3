H = ("harness_sched.py",)
P = "from harness_sched import *\n"

seed("dead-worker-index", "S03", "scaled/scheduler/allocators/queued.py",
     ("""        task_ids = self._workers_to_task_ids.pop(worker)
        for task_id in task_ids:
            self._task_id_to_worker.pop(task_id)
        return list(task_ids)""",
      """        return list(self._workers_to_task_ids.pop(worker))"""),
     "a worker is lost while it holds a task and another worker is there to take it",
     "the allocator still answers the dead worker for a rerouted task, which is sent to nobody",
     P + '''
async def test():
    async with World() as w:
        await w.function(b"c")
        await w.worker(b"w1")
        await w.submit(b"c", b"t1")
        await w.worker(b"w2")
        out = await w.get(b"w1", DisconnectRequest(b"w1"))
        sent = [to for to, m in out if isinstance(m, Task)]
        if sent != [b"w2"]:
            fail(f"the lost worker's task went to {sent}")
        out = await w.result(b"w2", b"t1")
        if [to for to, m in out if isinstance(m, TaskResult)] != [b"c"]:
            fail("result lost")

run(test)
''', H)

seed("waiting-limit-zero", "S08", "scaled/scheduler/task_manager.py",
     ("and 0 <= self._max_number_of_tasks_waiting <= self._unassigned.qsize()",
      "and 0 < self._max_number_of_tasks_waiting <= self._unassigned.qsize()"),
     "the scheduler is configured with a waiting limit of zero and there is no free worker",
     "a limit of zero is treated like no limit: the task is accepted and waits",
     P + '''
async def test():
    async with World(waiting=0) as w:
        await w.function(b"c")
        out = await w.submit(b"c", b"t1")
        if [m.status for to, m in out if isinstance(m, TaskEcho)] != [TaskEchoStatus.NoWorker]:
            fail(f"task accepted beyond the waiting limit: {out}")

run(test)
''', H)

seed("reroute-not-published", "S10", "scaled/scheduler/task_manager.py",
     ("""        self._running.remove(task_id)
        await self._unassigned.put(task_id)
        await self.__send_monitor(task_id, TaskStatus.Inactive)

    async def on_task_cancel""",
      """        self._running.remove(task_id)
        await self._unassigned.put(task_id)

    async def on_task_cancel"""),
     "a worker is lost while it holds a task",
     "the stream does not say that the rerouted task is waiting again",
     P + '''
async def test():
    async with World() as w:
        await w.function(b"c")
        await w.worker(b"w1")
        await w.submit(b"c", b"t1")
        await w.get(b"w1", DisconnectRequest(b"w1"))
        got = [m.status for m in w.monitor.sent if isinstance(m, TaskState)]
        if got != [TaskStatus.Inactive, TaskStatus.Running, TaskStatus.Inactive]:
            fail(f"stream says {got}")

run(test)
''', H)

seed("heartbeat-time-kept", "S11", "scaled/scheduler/worker_manager.py",
     ("""        if await self._allocator.add_worker(worker):
            logging.info(f"worker {worker!r} connected")

        self._worker_alive_since[worker] = (time.time(), info)
""",
      """        if await self._allocator.add_worker(worker):
            logging.info(f"worker {worker!r} connected")

        since, _ = self._worker_alive_since.get(worker, (time.time(), info))
        self._worker_alive_since[worker] = (since, info)
"""),
     "a worker that has been connected for longer than the time-out although it sends its heartbeats",
     "only the first heartbeat counts; workers are declared dead although they are not silent",
     P + '''
async def test():
    async with World(timeout=0.4) as w:
        await w.function(b"c")
        await w.worker(b"w1")
        out = await w.submit(b"c", b"t1")
        for _ in range(12):
            out += await w.worker(b"w1")
            out += await w.rest(0.05)
        if len([m for to, m in out if isinstance(m, Task)]) != 1:
            fail("a worker that sent its heartbeats was dropped and its task sent again")

run(test)
''', H)

seed("target-list-head", "G02", "scaled/scheduler/graph_manager.py",
     ("        if argument_task_id not in graph_info.target_task_ids:",
      "        if argument_task_id not in graph_info.target_task_ids[:1]:"),
     "a graph whose second target is also an argument of another node",
     "the result of a later target is thrown away when its last dependant starts; the graph is never answered",
     P + '''
async def test():
    async with World() as w:
        await w.worker(b"w1")
        arg = lambda x: [Argument(ArgumentType.Task, x)]
        g = GraphTask(b"g", {b"f": (b"n", b"c")}, [b"b", b"a"], [Task(b"a", b"f", []), Task(b"b", b"f", arg(b"a"))])
        await w.get(b"c", g)
        await w.result(b"w1", b"a", data=b"ra")
        out = await w.result(b"w1", b"b", data=b"rb")
        if [m.results for to, m in out if isinstance(m, GraphTaskResult)] != [[b"rb", b"ra"]]:
            fail(f"graph answered with {out}")

run(test)
''', H)

seed("disconnect-twice", "S02", "scaled/scheduler/worker_manager.py",
     [("""        if worker not in self._worker_alive_since:
            return False

        logging.info(f"worker {worker!r} disconnected")
        self._worker_alive_since.pop(worker)
""",
       """        _, info = self._worker_alive_since.pop(worker)
        logging.info(f"worker {worker!r} disconnected, {info.queued_tasks} tasks queued")
""")],
     "a worker that was already declared dead asks to be disconnected",
     "the disconnect request of a worker that is not known any more raises in the scheduler's loop",
     P + '''
async def test():
    async with World(timeout=0.1) as w:
        await w.worker(b"w1")
        await w.rest(0.5)
        await w.get(b"w1", DisconnectRequest(b"w1"))
        out = await w.worker(b"w2")
        if [m for to, m in out if isinstance(m, HeartbeatEcho)] == []:
            fail("no echo")

run(test)
''', H)

seed("idle-function-in-use", "S07", "scaled/scheduler/function_manager.py",
     ("""            if now - func_info.alive_since > self._function_retention_seconds
            and function_id not in self._function_id_to_task_ids
        ]""",
      """            if now - func_info.alive_since > self._function_retention_seconds
        ]"""),
     "a task that takes longer than the retention time",
     "the function of an unfinished task is dropped: publishing its result raises",
     P + '''
async def test():
    async with World(retention=0.2) as w:
        await w.function(b"c")
        await w.submit(b"c", b"t1")
        await w.rest(0.5)
        await w.worker(b"w1")
        out = await w.get(b"w1", FunctionRequest(FunctionRequestType.Request, b"f", b"", b""))
        if [m.status for to, m in out if isinstance(m, FunctionResponse)] != [FunctionResponseType.OK]:
            fail(f"function of an unfinished task is gone: {out}")

run(test)
'''.replace("[m.status for to, m in out if isinstance(m, FunctionResponse)]", "[m.status for to, m in out if isinstance(m, FunctionResponse)]"), H)

seed("requeued-still-running", "S05", "scaled/scheduler/task_manager.py",
     [("""        if task_cancel.task_id in self._unassigned:
            await self.on_task_done(TaskResult(task_cancel.task_id, TaskStatus.Canceled, 0, b""))
            return

        if task_cancel.task_id not in self._running:""",
       """        if task_cancel.task_id in self._unassigned and task_cancel.task_id not in self._running:
            await self.on_task_done(TaskResult(task_cancel.task_id, TaskStatus.Canceled, 0, b""))
            return

        if task_cancel.task_id not in self._running:"""),
      ("""        self._running.remove(task_id)
        await self._unassigned.put(task_id)
        await self.__send_monitor(task_id, TaskStatus.Inactive)

    async def on_task_cancel""",
       """        await self._unassigned.put(task_id)
        await self.__send_monitor(task_id, TaskStatus.Inactive)

    async def on_task_cancel""")],
     "a task is canceled while it waits again after its worker was lost",
     "a rerouted task keeps its running mark, so that its cancel is neither answered nor forwarded (two sites)",
     P + '''
async def test():
    async with World() as w:
        await w.function(b"c")
        await w.worker(b"w1")
        await w.submit(b"c", b"t1")
        await w.get(b"w1", DisconnectRequest(b"w1"))
        out = await w.get(b"c", TaskCancel(b"t1"))
        if [m.status for to, m in out if isinstance(m, TaskResult)] != [TaskStatus.Canceled]:
            fail(f"cancel of a waiting task answered with {out}")

run(test)
''', H)

seed("argument-order", "G01", "scaled/scheduler/graph_manager.py",
     ("            function_args = [self.__get_argument(graph_task_id, arg) for arg in task_info.task.function_args]\n",
      """            arguments = sorted(task_info.task.function_args, key=lambda arg: arg.type.value)
            function_args = [self.__get_argument(graph_task_id, arg) for arg in arguments]
"""),
     "a node that takes a node's result before a data argument",
     "arguments are given grouped by kind instead of in the order of the call",
     P + '''
async def test():
    async with World() as w:
        await w.worker(b"w1")
        args = [Argument(ArgumentType.Task, b"a"), Argument(ArgumentType.Data, b"d")]
        g = GraphTask(b"g", {b"f": (b"n", b"c")}, [b"b"], [Task(b"a", b"f", []), Task(b"b", b"f", args)])
        await w.get(b"c", g)
        out = await w.result(b"w1", b"a", data=b"ra")
        got = [[a.data for a in m.function_args] for to, m in out if isinstance(m, Task)]
        if got != [[b"ra", b"d"]]:
            fail(f"arguments {got}")

run(test)
''', H)

seed("slot-freed-on-cancel", "S06", "scaled/scheduler/worker_manager.py",
     [("""        await self._binder.send(worker, TaskCancel(task_cancel.task_id))
""",
       """        self._allocator.release_slot(worker)
        await self._binder.send(worker, TaskCancel(task_cancel.task_id))
"""),
      ("scaled/scheduler/allocators/queued.py", """    def get_assigned_worker(self, task_id""",
       """    def release_slot(self, worker: bytes):
        self._worker_queue.decrease_priority(worker)

    def get_assigned_worker(self, task_id""")],
     "tasks are canceled while their worker is full and others wait",
     "the worker's slot is free as soon as the cancel is sent and is freed again by the result: workers get more than they may hold",
     P + '''
async def test():
    async with World(queue=2) as w:
        await w.function(b"c")
        await w.worker(b"w1")
        out = []
        for t in (b"t1", b"t2", b"t3", b"t4"):
            out += await w.submit(b"c", t)
        out += await w.get(b"c", TaskCancel(b"t1"))
        got = [m.task_id for to, m in out if isinstance(m, Task)]
        if len(got) > 2:
            fail(f"a worker with a queue of 2 holds {got}")

run(test)
''', H)

seed("not-found-swallowed", "S01", "scaled/scheduler/worker_manager.py",
     [("""from scaled.protocol.python.message import TaskResult
""", """from scaled.protocol.python.message import TaskResult
from scaled.protocol.python.message import TaskStatus
"""), ("""            return

        await self._task_manager.on_task_done(task_result)
""",
      """            return

        if task_result.status == TaskStatus.NotFound:
            logging.error(f"worker {worker!r} does not know task_id={task_result.task_id.hex()}")
            return

        await self._task_manager.on_task_done(task_result)
""")],
     "a cancel reaches the worker before the worker knows the task, or after it has finished it",
     "the result NotFound frees the worker but never reaches the client: the task is lost",
     P + '''
async def test():
    async with World() as w:
        await w.function(b"c")
        await w.worker(b"w1")
        await w.submit(b"c", b"t1")
        await w.get(b"c", TaskCancel(b"t1"))
        out = await w.result(b"w1", b"t1", TaskStatus.NotFound)
        if [m.status for to, m in out if isinstance(m, TaskResult)] != [TaskStatus.NotFound]:
            fail(f"client got {out}")

run(test)
''', H)

seed("fail-keeps-starting", "G03", "scaled/scheduler/graph_manager.py",
     ("""            elif task_info.state == _TaskState.Running:
                await self._task_manager.on_task_cancel(client, TaskCancel(task_id))
            else:
                pass

        return graph_info""",
      """            elif task_info.state == _TaskState.Running:
                if task_id in graph_info.dependencies or task_id in graph_info.target_task_ids[:1]:
                    await self._task_manager.on_task_cancel(client, TaskCancel(task_id))
            else:
                pass

        return graph_info"""),
     "a graph fails while a node that is only a later target is running",
     "running nodes that nothing depends on are not canceled when the graph fails",
     P + '''
async def test():
    async with World() as w:
        await w.worker(b"w1")
        g = GraphTask(b"g", {b"f": (b"n", b"c")}, [b"a", b"b"], [Task(b"a", b"f", []), Task(b"b", b"f", [])])
        await w.get(b"c", g)
        out = await w.result(b"w1", b"a", TaskStatus.Failed)
        got = [m.task_id for to, m in out if isinstance(m, TaskCancel)]
        if got != [b"b"]:
            fail(f"cancels sent: {got}")

run(test)
''', H)

seed("graph-nodes-uncounted", "S12", "scaled/scheduler/task_manager.py",
     [("""        if result.status == TaskStatus.Success:
            self._success_count += 1
        elif result.status == TaskStatus.Failed:
            self._failed_count += 1
        elif result.status == TaskStatus.Canceled:
            self._canceled_count += 1
        elif result.status == TaskStatus.NotFound:
            self._not_found_count += 1

        if result.task_id in""", """        if result.task_id in"""),
      ("""        if await self._graph_manager.on_task_done(result):
            return

        await self._binder.send(client, result)
""", """        if await self._graph_manager.on_task_done(result):
            return

        if result.status == TaskStatus.Success:
            self._success_count += 1
        elif result.status == TaskStatus.Failed:
            self._failed_count += 1
        elif result.status == TaskStatus.Canceled:
            self._canceled_count += 1
        elif result.status == TaskStatus.NotFound:
            self._not_found_count += 1

        await self._binder.send(client, result)
""")],
     "a status report after a node of a graph has finished",
     "tasks that belong to a graph are missing from the report's numbers of ended tasks",
     P + '''
async def test():
    async with World() as w:
        await w.worker(b"w1")
        await w.get(b"c", GraphTask(b"g", {b"f": (b"n", b"c")}, [b"a", b"b"], [Task(b"a", b"f", []), Task(b"b", b"f", [])]))
        await w.result(b"w1", b"a")
        stats = (await w.scheduler._task_manager.statistics())["task_manager"]
        if stats["success"] != 1:
            fail(f"report says {stats}")

run(test)
''', H)

seed("figures-of-first-heartbeat", "S12", "scaled/scheduler/worker_manager.py",
     ("""        if await self._allocator.add_worker(worker):
            logging.info(f"worker {worker!r} connected")

        self._worker_alive_since[worker] = (time.time(), info)
""", """        if await self._allocator.add_worker(worker):
            logging.info(f"worker {worker!r} connected")

        last = self._worker_alive_since.get(worker)
        if last is not None and last[1].queued_tasks == info.queued_tasks and last[1].has_task == info.has_task:
            info = last[1]

        self._worker_alive_since[worker] = (time.time(), info)
"""),
     "a worker's second heartbeat has the same number of queued tasks but other figures",
     "load, memory and latency in the status report stay those of an earlier heartbeat",
     P + '''
async def test():
    async with World() as w:
        for latency in (10, 20):
            await w.get(b"w1", Heartbeat(0.0, 1, 0.0, 1, 0, latency, True, False, False))
        row, = (await w.scheduler._worker_manager.statistics())["worker_manager"]
        if row["lag"] != 20:
            fail(f"report says {row}")

run(test)
''', H)

BALANCE = P + '''
async def rounds(w, n=1):
    for _ in range(n):
        await w.scheduler._worker_manager.routine()
    return [(to, m.number_of_tasks) for to, m in await w.rest() if type(m).__name__ == "BalanceRequest"]
'''

seed("surplus-rounded", "S13", "scaled/scheduler/allocators/queued.py",
     [("""        return {worker: math.ceil(count - mean) for""", """        return {worker: round(count - mean) for"""),
      ("""import math
""", "")],
     "a surplus that ends in one half or less, e.g. three tasks on one of two workers and none on the other is 1.5, one task is 0.5",
     "an overloaded worker is asked for fewer tasks than its surplus, or for none",
     BALANCE + '''
async def test():
    async with World(balance=1, times=2, tick=1000) as w:
        await w.worker(b"w1")
        await w.function(b"c")
        for i in range(5):
            await w.submit(b"c", b"t%d" % i)
        await w.worker(b"w2")
        got = await rounds(w, 6)
        if got != [(b"w1", 3)]:
            fail(f"5 tasks on one of two workers: asked for {got}")

run(test)
''', H)

seed("imbalance-by-workers", "S13", "scaled/scheduler/worker_manager.py",
     ("""        if self._last_balance_advice != current_advice:
""", """        if self._last_balance_advice is None or self._last_balance_advice.keys() != current_advice.keys():
"""),
     "the surplus of an overloaded worker changes between two checks while the set of overloaded workers stays the same",
     "tasks are moved although the imbalance is new",
     BALANCE + '''
async def test():
    async with World(balance=1, times=3, tick=1000) as w:
        await w.worker(b"w1")
        await w.function(b"c")
        for i in range(6):
            await w.submit(b"c", b"t%d" % i)
        await w.worker(b"w2")
        got = await rounds(w, 2)
        await w.result(b"w1", b"t0")
        await w.result(b"w1", b"t1")
        got += await rounds(w, 1)
        if got:
            fail(f"asked for {got} after an imbalance that was seen once")
        got = await rounds(w, 6)
        if got != [(b"w1", 2)]:
            fail(f"asked for {got} after an imbalance that was seen often")

run(test)
''', H)

seed("idle-is-quiet", "S13", "scaled/scheduler/allocators/queued.py",
     ("""        worker_task_count = {worker: len(tasks) for worker, tasks in self._workers_to_task_ids.items()}
        any_worker_has_task""", """        worker_task_count = {worker: len(tasks) for worker, tasks in self._workers_to_task_ids.items()}
        if len(worker_task_count) == self._worker_queue.qsize() == 2 and max(worker_task_count.values()) == 1:
            return balance_result

        any_worker_has_task"""),
     "two workers of which one has one task",
     "the imbalance is never acted on",
     BALANCE + '''
async def test():
    async with World(balance=1, times=2, tick=1000) as w:
        await w.worker(b"w1")
        await w.function(b"c")
        await w.submit(b"c", b"t")
        await w.worker(b"w2")
        got = await rounds(w, 6)
        if got != [(b"w1", 1)]:
            fail(f"1 task on one of two workers: asked for {got}")

run(test)
''', H)

seed("first-unknown-ends-it", "S04", "scaled/scheduler/worker_manager.py",
     ("""            if self._allocator.get_assigned_worker(task_id) != source:
                continue

""",
      """            if self._allocator.get_assigned_worker(task_id) != source:
                break

"""),
     "a worker hands back several tasks, one of which the scheduler no longer counts as this worker's",
     "the tasks named after it stay assigned to the worker that gave them up",
     P + '''
async def test():
    async with World() as w:
        await w.function(b"c")
        await w.worker(b"w1")
        await w.submit(b"c", b"t1")
        await w.submit(b"c", b"t2")
        await w.result(b"w1", b"t1")
        await w.worker(b"w2")
        out = await w.get(b"w1", BalanceResponse([b"t1", b"t2"]))
        if [m.task_id for to, m in out if isinstance(m, Task)] != [b"t2"]:
            fail(f"handed-back task was not scheduled again: {out}")

run(test)
''', H)

seed("idle-on-another-clock", "S07", "scaled/scheduler/function_manager.py",
     ("""        now = time.time()
        dead_functions""",
      """        now = time.monotonic()
        dead_functions"""),
     "a function stays unused for longer than the retention time",
     "the idle time is computed between two clocks: functions are never dropped",
     P + '''
async def test():
    async with World(retention=0.5) as w:
        await w.function(b"c")
        await w.worker(b"w1")
        out = await w.rest(2)
        if [m for to, m in out if to == b"w1" and isinstance(m, FunctionRequest)] == []:
            fail("the idle function was not dropped")

run(test)
''', H)

seed("inner-node-remembered", "S09", "scaled/scheduler/graph_manager.py",
     ("""            self._task_id_to_graph_task_id.pop(argument_task_id)
            graph_info.tasks.pop(argument_task_id)
""",
      """            graph_info.tasks.pop(argument_task_id)
"""),
     "a graph with a node that is no target and whose result all its users have received",
     "the scheduler's index keeps the node for ever",
     P + '''
def holds(root, identity):
    seen, todo = set(), [root]
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, (type, FakeBinder, FakeConnector)) or callable(x):
            continue
        seen.add(id(x))
        if x == identity:
            return True
        if isinstance(x, dict):
            todo += list(x) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif hasattr(x, "__dict__") and type(x).__module__.startswith("scaled"):
            todo += list(vars(x).values())
    return False

async def test():
    async with World() as w:
        await w.function(b"c")
        await w.worker(b"w1")
        n1 = Task(b"n1-id", b"f", [])
        n2 = Task(b"n2-id", b"f", [Argument(ArgumentType.Task, b"n1-id")])
        await w.get(b"c", GraphTask(b"g1-id", {}, [b"n2-id"], [n1, n2]))
        await w.result(b"w1", b"n1-id")
        out = await w.result(b"w1", b"n2-id")
        if [m.task_id for to, m in out if isinstance(m, GraphTaskResult)] != [b"g1-id"]:
            fail("no result")
        left = [i for i in (b"n1-id", b"n2-id", b"g1-id") if holds(w.scheduler, i)]
        if left:
            fail(f"the scheduler still mentions {left}")

run(test)
''', H)
