H = ("harness_worker.py",)
P = "from harness_worker import *\n"

seed("echo-while-starting", "W08", "scaled/worker/agent/heartbeat_manager.py",
     ("""        self._start_timestamp_ns = 0
        self._timeout_manager.update_last_seen_time()
""",
      """        self._start_timestamp_ns = 0
        if self._processor_manager.initialized():
            self._timeout_manager.update_last_seen_time()
"""),
     "the processor needs longer to start (or to restart) than the death time-out while the scheduler answers every heartbeat",
     "echoes do not count while the processor is starting: the worker gives up although the scheduler is there",
     P + '''
async def test():
    async with World(heartbeat=0.1, death=2) as w:
        seen = 0
        for _ in range(45):
            await asyncio.sleep(0.1)
            if w.loops.done():
                fail("the worker gave up although every heartbeat was answered")
            n = len([m for m in w.external.sent if type(m).__name__ == "Heartbeat"])
            if n > seen:
                seen = n
                await w.external.queue.put(HeartbeatEcho())

run(test)
''', H)

seed("ready-by-any-result", "W04", "scaled/worker/agent/processor_manager.py",
     ("""        if task_result.task_id != b"":
            return

        self._processor_holder.initialized.set()
""",
      """        self._processor_holder.initialized.set()
"""),
     "the result of the canceled task is still in the pipe when its processor was replaced",
     "that result counts as the new processor's ready message: the next task goes out before the new processor is there",
     P + '''
async def test():
    async with World() as w:
        await w.ready()
        await w.task(b"a")
        await w.task(b"b")
        out = await w.get(TaskCancel(b"a"))
        out += await w.result(b"a")
        if [to for to, m in out if isinstance(m, Task)]:
            fail("a task was given to a processor that was not ready")

run(test)
''', H)

seed("canceled-stays-queued", "W02", "scaled/worker/agent/task_manager.py",
     [("""            self._queued_task_ids.remove(task_cancel.task_id)
""", ""),
      ("""        task = self._queued_task_id_to_task.pop(task_id)
        if await""", """        task = self._queued_task_id_to_task.pop(task_id, None)
        if task is None:
            return  # canceled meanwhile

        if await""")],
     "a queued task is canceled and a rebalancing request arrives before its turn came",
     "the canceled id is still in the queue; handing it back raises KeyError and ends the agent",
     P + '''
async def test():
    async with World() as w:
        await w.ready()
        for t in (b"a", b"b", b"c"):
            await w.task(t)
        await w.get(TaskCancel(b"b"))
        out = await w.get(BalanceRequest(2))
        got = [m.task_ids for to, m in out if isinstance(m, BalanceResponse)]
        if got != [[b"c"]]:
            fail(f"handed back {got}")

run(test)
''', H)

seed("stop-while-starting", "W07", "scaled/worker/agent/processor_manager.py",
     ("""    def destroy(self):
        self.__kill()
""",
      """    def destroy(self):
        if self.initialized():
            self.__kill()

"""),
     "the worker is stopped while its processor is starting or restarting",
     "the processor that is not ready yet is left running",
     P + '''
async def test():
    w = World()
    async with w:
        await w.ready()
        await w.task(b"a")
        await w.get(TaskCancel(b"a"))
    left = [p.pid for p in processors if p.pid not in killed]
    if left:
        fail(f"processors left behind: {left}")

run(test)
''', H)

seed("balance-keeps-task", "W01", "scaled/worker/agent/task_manager.py",
     ("""            removed_tasks.append(task_id)
            self._queued_task_id_to_task.pop(task_id)
""",
      """            removed_tasks.append(task_id)
"""),
     "a cancel arrives for a task that was handed back in a rebalancing answer",
     "the worker still believes it has the task",
     P + '''
async def test():
    async with World() as w:
        await w.ready()
        for t in (b"a", b"b"):
            await w.task(t)
        out = await w.get(BalanceRequest(1))
        if [m.task_ids for to, m in out if isinstance(m, BalanceResponse)] != [[b"b"]]:
            fail("not handed back")
        out = await w.get(TaskCancel(b"b"))
        if [m.status for to, m in out if isinstance(m, TaskResult)] != [TaskStatus.NotFound]:
            fail(f"answered for a task it does not have: {out}")

run(test)
''', H)

seed("still-initialized", "W03", "scaled/worker/agent/processor_manager.py",
     ("""        self._processor_holder.processor = None
        self._processor_holder.initialized.clear()

    def __start""",
      """        self._processor_holder.processor = None

    def __start"""),
     "another task is queued when the running task is canceled",
     "the next task is sent although the new processor is not ready",
     P + '''
async def test():
    async with World() as w:
        await w.ready()
        await w.task(b"a")
        await w.task(b"b")
        out = await w.get(TaskCancel(b"a"))
        if [m for to, m in out if isinstance(m, Task)]:
            fail("a task was given to a processor that was not ready")

run(test)
''', H)

PP = '''
import os, sys, threading
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)
import scaled.worker.agent.processor.processor as pr
from scaled.protocol.python.message import *
from scaled.protocol.python.message import FunctionRequest, FunctionRequestType, FunctionResponse, FunctionResponseType, Task, TaskResult, TaskStatus, Argument, ArgumentType
from scaled.protocol.python.serializer.default import DefaultSerializer

class FakeConnector:
    def __init__(self, callback=None, **kwargs):
        self.callback, self.sent = callback, []
    def send_immediately(self, m):
        self.sent.append(m)
    send = send_immediately
    def run(self):
        script(self)

def fail(text):
    print("FAIL:", text); sys.stdout.flush(); os._exit(1)

pr.SyncConnector = FakeConnector
S = DefaultSerializer()
p = lambda: pr.Processor(event_loop="builtin", address=None, garbage_collect_interval_seconds=1000, trim_memory_threshold_bytes=1 << 40, function_retention_seconds=1000, serializer=S)
'''


seed("result-bytes-late", "W05", "scaled/worker/agent/processor/processor.py",
     [("""            result_bytes = self._serializer.serialize_result(result)
            self._connector.send_immediately(
                TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
            )

        except KeyboardInterrupt:""",
       """        except KeyboardInterrupt:"""),
      ("""                    self.__serialize_exception(e),
                )
            )
""", """                    self.__serialize_exception(e),
                )
            )
            return

        result_bytes = self._serializer.serialize_result(result)
        self._connector.send_immediately(
            TaskResult(task.task_id, TaskStatus.Success, time.monotonic() - begin, result_bytes)
        )
""")],
     "the function returns something that cannot be serialized (a lock, a generator)",
     "the serializer's exception leaves the processor instead of being reported as the task's failure",
     PP + '''
def script(c):
    c.callback(Task(b"t", b"f", []))
    c.callback(FunctionResponse(FunctionResponseType.OK, b"f", b"n", S.serialize_function(lambda: threading.Lock())))
    got = [(m.task_id, m.status) for m in c.sent if isinstance(m, TaskResult)][1:]
    if got != [(b"t", TaskStatus.Failed)]:
        fail(f"answers {got}")
    print("ok"); sys.stdout.flush(); os._exit(0)
try:
    p().run()
except BaseException as e:
    fail(f"processor ended with {e!r}")
''')

seed("delete-forgets-waiting-task", "W06", "scaled/worker/agent/processor/processor.py",
     ("""            self._cache_cleaner.del_function(request.function_id)
            return
""",
      """            self._cache_cleaner.del_function(request.function_id)
            if self._current_task is not None and self._current_task.function_id == request.function_id:
                self._current_task = None

            return
"""),
     "the scheduler's delete of a function crosses the worker's request for that function",
     "the task that waits for the function is forgotten and never answered",
     PP + '''
def script(c):
    c.callback(Task(b"t", b"f", []))
    c.callback(FunctionRequest(FunctionRequestType.Delete, b"f", b"", b""))
    c.callback(FunctionResponse(FunctionResponseType.OK, b"f", b"n", S.serialize_function(lambda: 1)))
    got = [(m.task_id, m.status) for m in c.sent if isinstance(m, TaskResult)][1:]
    if got != [(b"t", TaskStatus.Success)]:
        fail(f"answers {got}")
    print("ok"); sys.stdout.flush(); os._exit(0)
p().run()
''')

seed("first-processor-measured", "W09", "scaled/worker/agent/heartbeat_manager.py",
     ("""        self._worker_process = psutil.Process(process_id)
""", """        if self._worker_process is None:
            self._worker_process = psutil.Process(process_id)
"""),
     "a heartbeat after a cancel has restarted the processor",
     "the heartbeat goes on measuring the process that was killed",
     P + '''
class Ps(FakePsProcess):
    def __init__(self, pid=None):
        self.pid = pid or 0

    def memory_info(self):
        return types.SimpleNamespace(rss=self.pid)

async def test():
    global FakePsProcess
    import harness_worker
    harness_worker.FakePsProcess = Ps
    async with World() as w:
        await w.ready()
        await w.task(b"t1")
        await w.get(TaskCancel(b"t1"))
        w.worker._heartbeat._start_timestamp_ns = 0
        await w.worker._heartbeat.routine()
        last = [m for m in w.external.sent if isinstance(m, Heartbeat)][-1]
        if last.worker_rss != processors[-1].pid:
            fail(f"heartbeat measures {last.worker_rss}, the processor is {processors[-1].pid}")

run(test)
''', H)

seed("initialized-when-started", "W09", "scaled/worker/agent/processor_manager.py",
     ("""    def initialized(self) -> bool:
        return self._processor_holder.initialized.is_set()
""", """    def initialized(self) -> bool:
        return self._processor_holder.processor is not None
"""),
     "a heartbeat between the start of a processor process and its first message",
     "the heartbeat says the processor is initialized although it has not announced itself",
     P + '''
async def test():
    async with World() as w:
        w.worker._heartbeat._start_timestamp_ns = 0
        await w.worker._heartbeat.routine()
        first = [m for m in w.external.sent if isinstance(m, Heartbeat)][-1]
        if first.initialized:
            fail("the heartbeat says initialized")

run(test)
''', H)


CP = '''
import gc, os, sys, time
sys.path.insert(0, os.getcwd())
import scaled.worker.agent.processor.cache_cleaner as cc

cc.CLEANUP_INTERVAL_SECONDS = 0.05

def fail(text):
    print("FAIL:", text); sys.stdout.flush(); os._exit(1)

class Memory:
    def __init__(self, rss):
        self.rss = rss

class FakeProcess:
    """resident memory that shrinks when garbage is collected"""
    def __init__(self, pid=None):
        self.rss = 1000
    def memory_info(self):
        return Memory(self.rss)

class FakeLib:
    trims = 0
    @classmethod
    def malloc_trim(cls, pad):
        cls.trims += 1
        return 1

process = FakeProcess()
cc.psutil = type("psutil", (), {"Process": lambda *a: process})
cc.ctypes = type("ctypes", (), {"cdll": type("cdll", (), {"LoadLibrary": lambda *a: FakeLib})})
gc.disable()
collections = []
def collected(phase, info):
    if phase == "stop":
        collections.append(time.time())
        process.rss = 10
gc.callbacks.append(collected)
def start(collect=1000, threshold=1 << 40, retention=1000):
    c = cc.CacheCleaner(collect, threshold, retention)
    c.daemon = True
    c.start()
    return c
'''


seed("collected-when-quiet", "W10", "scaled/worker/agent/processor/cache_cleaner.py",
     ("""        if time.time() - self._previous_garbage_collect_time < self._garbage_collect_interval_seconds:
            return

        self._previous_garbage_collect_time = time.time()

""",
      """        elapsed = time.time() - self._previous_garbage_collect_time
        self._previous_garbage_collect_time = time.time()
        if elapsed < self._garbage_collect_interval_seconds:
            return

"""),
     "a collection interval longer than the pause between two rounds of the cleaner",
     "every round starts the interval anew, garbage is never collected and memory never given back",
     CP + '''
start(collect=0.4)
time.sleep(2)
if not collections:
    fail("no collection although the interval passed several times")
print("ok")
''', ())

seed("memory-before-collection", "W10", "scaled/worker/agent/processor/cache_cleaner.py",
     ("""        gc.collect()

        if self._process.memory_info().rss < self._trim_memory_threshold_bytes:
            return
""",
      """        resident = self._process.memory_info().rss
        gc.collect()

        if resident < self._trim_memory_threshold_bytes:
            return
"""),
     "garbage whose collection brings the resident memory below the threshold",
     "the memory before the collection decides: memory is trimmed although the collection was enough",
     CP + '''
start(collect=0.2, threshold=100)
time.sleep(1)
if not collections:
    fail("no collection")
if FakeLib.trims:
    fail("trimmed although memory was below the threshold after each collection")
print("ok")
''', ())

seed("silence-on-another-clock", "W08", "scaled/worker/agent/timeout_manager.py",
     ("""        if (time.time() - self._last_seen_time) < self._death_timeout_seconds:
""",
      """        if (time.monotonic() - self._last_seen_time) < self._death_timeout_seconds:
"""),
     "the scheduler falls silent for longer than the death time-out",
     "the silence is computed between two clocks, and the worker waits for ever",
     P + '''
async def test():
    async with World(heartbeat=0.1, death=1) as w:
        await w.ready()
        for _ in range(60):
            await asyncio.sleep(0.1)
            if w.loops.done():
                w.loops.exception()
                print("ok"); sys.stdout.flush(); os._exit(0)
        fail("the worker did not notice that the scheduler is silent")

run(test)
''', H)

seed("delete-while-busy", "P03", "scaled/worker/agent/processor_manager.py",
     ("""        if request.type == FunctionRequestType.Delete:
            await""",
      """        if request.type == FunctionRequestType.Delete:
            if self._processor_holder.task is not None and self._processor_holder.task.function_id != request.function_id:
                return  # busy with something else

            await"""),
     "a function is dropped by the scheduler while the processor runs a task of another function",
     "the processor never learns that the function was dropped",
     P + '''
async def test():
    async with World() as w:
        await w.ready()
        out = await w.task(b"a", b"f")
        out += await w.get(FunctionRequest(FunctionRequestType.Delete, b"g", b"", b""))
        out += await w.result(b"a")
        if [m.function_id for to, m in out if to == "processor" and isinstance(m, FunctionRequest)] != [b"g"]:
            fail("the processor was not told to drop the function")

run(test)
''', H)
