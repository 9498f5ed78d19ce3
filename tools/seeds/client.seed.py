H = ("harness_client.py",)
P = "from harness_client import *\n"

seed("targets-in-graph-order", "C05", "scaled/client.py",
     ("""        graph_task = GraphTask(uuid.uuid1().bytes, functions, list(task_id_to_future.keys()), tasks)
""",
      """        targets = [task.task_id for task in tasks if task.task_id in task_id_to_future]
        graph_task = GraphTask(uuid.uuid1().bytes, functions, targets, tasks)
"""),
     "keys are requested in an order other than the one in which the graph defines them",
     "results are delivered under each other's key",
     P + '''
c, k = client()
futures = c.get({"a": (abs, "x"), "b": (abs, "x"), "x": -1}, ["b", "a"], block=False)
g = [m for m in k.take() if isinstance(m, GraphTask)][0]
by_order = dict(zip(("a", "b"), (t.task_id for t in g.graph)))
name = {v: n for n, v in by_order.items()}
k.callback(GraphTaskResult(g.task_id, TaskStatus.Success, [c._serializer.serialize_result(name[t]) for t in g.targets]))
got = {n: f.result(1) for n, f in futures.items()}
if got != {"a": "a", "b": "b"}:
    fail(f"results {got}")
print("ok")
''', H)

seed("function-cache-by-name", "C06", "scaled/client.py",
     ("""        if fn in self._function_to_function_id_cache:
            return self._function_to_function_id_cache[fn]

        function_id, (function_name, function_bytes) = self.__generate_function_id_bytes(fn)
        self._function_to_function_id_cache[fn] = function_id, (function_name, function_bytes)
""",
      """        key = getattr(fn, "__qualname__", fn)
        if key in self._function_to_function_id_cache:
            return self._function_to_function_id_cache[key]

        function_id, (function_name, function_bytes) = self.__generate_function_id_bytes(fn)
        self._function_to_function_id_cache[key] = function_id, (function_name, function_bytes)
"""),
     "two different functions with the same qualified name (two lambdas made in one place)",
     "the second function's nodes are computed with the first function",
     P + '''
import cloudpickle
c, k = client()
def make(n):
    return lambda x: x + n
c.get({"a": (make(1), "x"), "b": (make(2), "x"), "x": 0}, ["a", "b"], block=False)
g = [m for m in k.take() if isinstance(m, GraphTask)][0]
got = [cloudpickle.loads(g.functions[t.function_id][1])(0) for t in g.graph]
if got != [1, 2]:
    fail(f"nodes compute {got}")
print("ok")
''', H)

seed("self-dependency", "C06", "scaled/client.py",
     ("""            sorter.add(node_name, *node[1:])
""",
      """            sorter.add(node_name, *(arg for arg in node[1:] if arg in graph and arg != node_name))
"""),
     "a node that names itself as its argument",
     "the cycle is not noticed, the graph is transmitted and never ends",
     P + '''
c, k = client()
try:
    c.get({"a": (abs, "a")}, ["a"], block=False)
except Exception:
    pass
else:
    fail("accepted")
if [m for m in k.take() if isinstance(m, GraphTask)]:
    fail("sent")
print("ok")
''', H)

seed("canceled-not-told", "C07", "scaled/client.py",
     ("""            for task_id, futures in self._graph_task_id_to_futures.items():
                self._connector.send_immediately(GraphTaskCancel(task_id))
""",
      """            for task_id, futures in self._graph_task_id_to_futures.items():
                if not any(future.done() for future in futures):
                    self._connector.send_immediately(GraphTaskCancel(task_id))

"""),
     "one of a graph's futures was canceled by its owner before the client disconnects",
     "the scheduler is not told to cancel the graph",
     P + '''
c, k = client()
futures = c.get({"a": (abs, "x"), "b": (abs, "x"), "x": -1}, ["b", "a"], block=False)
g = [m for m in k.take() if isinstance(m, GraphTask)][0]
futures["a"].cancel()
c.disconnect()
out = [m.task_id for m in k.end() if type(m).__name__ == "GraphTaskCancel"]
if out != [g.task_id]:
    fail(f"canceled {out}")
print("ok")
''', H)


seed("waits-for-own-function", "C01", "scaled/client.py",
     ("""            task = self._task_id_to_task[task_echo.task_id]
            self.__on_buffer_task_send(task)
            return
""",
      """            task = self._task_id_to_task[task_echo.task_id]
            self._function_id_to_not_ready_tasks[task.function_id].append(task)
            return
"""),
     "the scheduler dropped the function between its registration and the task's arrival",
     "the task waits for a function reply that nobody has asked for",
     P + '''
c, k = client()
f = c.submit(abs, -1)
t = [m for m in ok(k) if isinstance(m, Task)][0]
k.callback(TaskEcho(t.task_id, TaskEchoStatus.FunctionNotExists))
again = [m.task_id for m in ok(k) if isinstance(m, Task)]
if again != [t.task_id]:
    fail(f"sent again {again}")
print("ok")
''', H)

seed("empty-tuples-skipped", "C03", "scaled/client.py",
     ("""for args in iterable]
""",
      """for args in iterable if args]
"""),
     "an argument tuple in the iterable is empty (a function without parameters)",
     "nothing is submitted for it and its result is missing",
     P + '''
import cloudpickle, threading
c, k = client()
def answer():
    while True:
        for t in ok(k):
            k.callback(TaskEcho(t.task_id, TaskEchoStatus.SubmitOK))
            k.callback(TaskResult(t.task_id, TaskStatus.Success, 0.0, c._serializer.serialize_result(7)))
threading.Thread(target=answer, daemon=True).start()
got = c.map(lambda: 7, [(), ()])
if got != [7, 7]:
    fail(f"results {got}")
print("ok"); sys.stdout.flush(); os._exit(0)
''', H)

seed("explicit-none", "C04", "scaled/client.py",
     ("""        all_args = Client.__convert_kwargs_to_args(fn, args, kwargs)
""",
      """        given = {name: value for name, value in kwargs.items() if value is not None}
        all_args = Client.__convert_kwargs_to_args(fn, args, given)
"""),
     "a keyword argument is passed as None and the parameter's default is something else",
     "the default is used instead of the None that was passed",
     P + '''
c, k = client()
def f(a, b=5):
    return b
c.submit(f, 1, b=None)
t = [m for m in ok(k) if isinstance(m, Task)][0]
got = [c._serializer.deserialize_argument(a.data) for a in t.function_args]
if got != [1, None]:
    fail(f"arguments {got}")
print("ok")
''', H)

seed("canceled-target-shifts", "C08", "scaled/client.py",
     ("""        futures = self._graph_task_id_to_futures.pop(graph_result.task_id)
""",
      """        futures = [f for f in self._graph_task_id_to_futures.pop(graph_result.task_id) if not f.cancelled()]
"""),
     "one of several futures of a graph is canceled by its owner before the graph's results arrive",
     "the results after it are delivered to the wrong futures",
     P + '''
c, k = client()
futures = c.get({"a": (abs, "x"), "b": (abs, "x"), "x": -1}, ["a", "b"], block=False)
g = [m for m in k.take() if isinstance(m, GraphTask)][0]
futures["a"].cancel()
try:
    k.callback(GraphTaskResult(g.task_id, TaskStatus.Success, [c._serializer.serialize_result(n) for n in ("a", "b")]))
except Exception as e:
    fail(f"the client's thread is stopped by {e!r}")
if not futures["b"].done() or futures["b"].result() != "b":
    fail("wrong result")
print("ok")
''', H)

seed("asked-once-only", "C01", "scaled/client.py",
     ("""            task = self._task_id_to_task[task_echo.task_id]
            self.__on""",
      """            task = self._task_id_to_task.pop(task_echo.task_id)
            self.__on"""),
     "the function is dropped by the scheduler twice before the task gets there",
     "the second such reply is ignored and the task's future stays pending for ever",
     P + '''
c, k = client()
future = c.submit(abs, -1)
for _ in range(3):
    tasks = ok(k)
    if not tasks:
        fail("the task was not transmitted again")
    try:
        k.callback(TaskEcho(tasks[-1].task_id, TaskEchoStatus.FunctionNotExists))
    except Exception as e:
        fail(repr(e))
print("ok")
''', H)

seed("returned-exception-raised", "C02", "scaled/client.py",
     ("""        if result.status == TaskStatus.Success:
            self.__set_result(future, result.result)
            return
""",
      """        if result.status == TaskStatus.Success:
            value = self.__load_exception(result.result)
            if isinstance(value, BaseException):
                self.__set_exception(future, value)
            else:
                self.__set_result(future, result.result)
            return
"""),
     "a task succeeds and its value is an exception object",
     "the value is raised instead of being returned",
     P + '''
c, k = client()
future = c.submit(abs, -1)
t = ok(k)[0]
k.callback(TaskEcho(t.task_id, TaskEchoStatus.SubmitOK))
k.callback(TaskResult(t.task_id, TaskStatus.Success, 0.0, c._serializer.serialize_result(KeyError("x"))))
try:
    got = future.result(1)
except Exception as e:
    fail(f"raised {e!r}")
if not isinstance(got, KeyError):
    fail(f"value {got!r}")
print("ok")
''', H)
