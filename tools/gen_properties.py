"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json
import os

T = "11 tests start one scheduler and three workers and exercise the good path once; "
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in mech],
                **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                **({"observe_at": observe} if observe else {}),
                hook_needed=hook,
            ),
        )
    )


CL = "scaled/client.py"
SM = "scaled/scheduler/main.py"
STM = "scaled/scheduler/task_manager.py"
SWM = "scaled/scheduler/worker_manager.py"
SFM = "scaled/scheduler/function_manager.py"
SGM = "scaled/scheduler/graph_manager.py"
SCM = "scaled/scheduler/client_manager.py"
QA = "scaled/scheduler/allocators/queued.py"
WK = "scaled/worker/worker.py"
WTM = "scaled/worker/agent/task_manager.py"
WPM = "scaled/worker/agent/processor_manager.py"
WHB = "scaled/worker/agent/heartbeat_manager.py"
WTO = "scaled/worker/agent/timeout_manager.py"
PR = "scaled/worker/agent/processor/processor.py"
CC = "scaled/worker/agent/processor/cache_cleaner.py"
MSG = "scaled/protocol/python/message.py"
AB = "scaled/io/async_binder.py"
AC = "scaled/io/async_connector.py"
SC = "scaled/io/sync_connector.py"
IQ = "scaled/utility/queues/async_indexed_queue.py"
PQ = "scaled/utility/queues/async_priority_queue.py"
OM = "scaled/utility/one_to_many_dict.py"
KV = "scaled/utility/key_value_set.py"
ZC = "scaled/utility/zmq_config.py"
CLU = "scaled/cluster/cluster.py"
COM = "scaled/cluster/combo.py"
CSP = "scaled/cluster/scheduler.py"
EPC = "scaled/entry_points/cluster.py"
EPS = "scaled/entry_points/scheduler.py"
TOP = "scaled/entry_points/top.py"

# ---------------------------------------------------------------- client
p("C01", "A submitted task is always transmitted and its future always resolves",
  "For every interleaving of the caller's thread with the client's I/O thread, a task handed to submit is eventually "
  "transmitted to the scheduler (after its function has been registered there), and once the scheduler's terminal "
  "reply for it arrives its future is resolved, so that nobody waits for ever. No reply the scheduler can send for a "
  "pending task stops the client's I/O thread.",
  ["schedules", "inputs", "histories"],
  "every interleaving of submit() with the receive thread; every order and kind of scheduler reply for the task",
  T + "they never interleave submit with a function reply, and only see success and ordinary failure replies.",
  [CL, SC],
  [("Client.submit / __on_buffer_task_send", CL), ("Client.__on_function_response flushes the buffer", CL),
   ("Client.__on_task_echo / __on_task_result", CL), ("SyncConnector.run", SC)],
  state=[("buffered tasks per function", "tasks waiting until the function is registered", CL),
         ("task id to future", "unresolved futures", CL)],
  observe=["future.result()", "frames sent by the client socket"])
p("C02", "A future receives the outcome of its own task",
  "The future returned by submit is resolved with the deserialized value when its own task succeeded and with the "
  "exception the task raised when it failed; a task reported cancelled or not found never leaves its future "
  "pending and never yields a value. A reply for one task never touches another task's future, and no future is "
  "resolved twice.",
  ["inputs", "histories", "schedules"],
  "every terminal status, every order of replies, replies for unknown or already finished tasks",
  T + "the cancelled, not-found and duplicate-reply cases never occur in them.",
  [CL], [("Client.__on_task_result", CL)],
  state=[("task id to future", "unresolved futures", CL)], observe=["future.result()", "future.exception()"])
p("C03", "map yields exactly one result per argument tuple, in order",
  "Client.map submits the function exactly once for every argument tuple the iterable yields, whatever kind of "
  "iterable it is (list, tuple, generator, other one-shot iterator), passes the tuple's items as positional "
  "arguments, and returns the results in the order of the input. If any element is not a list or tuple it raises "
  "TypeError without submitting anything; if a task fails the failure is raised to the caller.",
  ["inputs"], "every kind and length of iterable, every element type",
  "test_map passes one list of 1-tuples.",
  [CL], [("Client.map", CL)], observe=["return value of map", "tasks submitted"])
p("C04", "No argument given to submit is dropped or misplaced",
  "For every signature and every combination of positional and keyword arguments, submit either transmits arguments "
  "that bind on the worker exactly as the same local call would, with defaults filled in, or raises TypeError (there or "
  "through the future); no supplied argument is silently ignored, overridden or moved to another parameter; a call whose arguments can all be expressed by position is transmitted, not refused.",
  ["inputs"], "every parameter kind (positional-only, ordinary, with default, keyword-only) and every call shape",
  "test_function tries seven calls on two signatures and none with an unknown or left-over keyword.",
  [CL], [("Client.__convert_kwargs_to_args", CL)], observe=["serialized arguments of the transmitted task"])
p("C05", "Graph results are delivered under the requested key names",
  "Client.get returns, for every requested key (in any order, with repetitions), the value computed by the node of "
  "that name and no other. When the graph fails, is cancelled or disappears, every requested key's future is "
  "resolved with the failure, so neither the blocking nor the non-blocking form leaves a future pending. The graph "
  "and the keys given are left as they were, and may be given again.",
  ["inputs", "histories", "schedules"],
  "every key list including repeated keys, both blocking modes, every terminal graph status",
  "test_graph asks for a single key in blocking mode; with one key the order and the fan-out of a failure cannot be wrong.",
  [CL, SGM], [("Client.get / __construct_graph", CL), ("Client.__on_graph_task_result", CL)],
  observe=["return value of get", "futures of get(block=False)"])
p("C06", "An invalid graph is rejected locally and leaves nothing behind",
  "Client.get raises to its caller, before anything is transmitted or registered, when a requested key is not a "
  "computed node, when a node refers to a name that is not in the graph, or when the nodes depend on one another in "
  "a cycle; a graph that passes these checks is transmitted completely: each node once, with its function, its data "
  "arguments by value and its node arguments by reference, in the order they were written.",
  ["inputs"], "every graph shape, including cycles of any length, dangling names and repeated arguments",
  "test_graph contains one two-node cycle and one valid five-node graph.",
  [CL], [("Client.__check_graph", CL), ("Client.__split_data_and_graph", CL), ("Client.__construct_graph", CL)],
  observe=["exceptions of get", "GraphTask transmitted"])
p("C07", "Disconnecting cancels everything outstanding and releases every waiter",
  "When the client is disconnected, the scheduler is told to cancel every task and every graph that is still "
  "outstanding, and every unresolved future is completed with the disconnect error, whatever state the individual "
  "futures are in; afterwards the I/O thread ends and its socket is closed.",
  ["histories", "schedules"],
  "every mix of buffered, transmitted, running, locally cancelled and finished tasks and graphs at the moment of disconnecting",
  "test_noop_cancel disconnects once and asserts nothing.",
  [CL, SC], [("Client.__on_exit", CL), ("SyncConnector.run exit callback", SC)],
  observe=["futures after disconnect()", "TaskCancel / GraphTaskCancel frames"])
p("C08", "Cancelling one future locally never disturbs the others",
  "If the user cancels a future returned by submit or get, at any moment, the client's I/O thread keeps running, all "
  "other futures are still resolved normally, and the cancelled future stays cancelled.",
  ["schedules", "histories"],
  "Future.cancel() at every point between submission and the terminal reply",
  "no test calls Future.cancel().",
  [CL], [("set_running_or_notify_cancel on the task echo", CL), ("Client.__on_task_result", CL), ("Client.__on_exit", CL)],
  observe=["other futures", "client I/O thread"])

# ---------------------------------------------------------------- scheduler
p("S01", "An accepted task is never lost and is answered exactly once",
  "After the scheduler has accepted a task, then for every order of worker heartbeats, results, disconnects, "
  "timeouts, rebalancing and cancellation the task can always still reach a worker or its terminal state, and exactly "
  "one terminal result for it is sent, to the client that submitted it and carrying the status and payload the "
  "worker reported. A late or duplicate result for a task that is no longer outstanding is ignored.",
  ["schedules", "fault_sequences", "histories"],
  "every sequence of protocol-conforming messages, worker failures and timer ticks around one task",
  T + "workers never die, and neither duplicate results nor rerouted tasks occur.",
  [STM, SWM, QA, SCM, SM],
  [("VanillaTaskManager.routine / on_task_done / on_task_reroute", STM), ("VanillaWorkerManager.on_task_done", SWM)],
  state=[("unassigned queue, running set, task table", "where the task is", STM), ("task to worker", "who runs it", QA)],
  observe=["frames sent by the scheduler"])
p("S02", "The scheduler survives every conforming message sequence",
  "No sequence of messages that clients and workers following the protocol can send, in any interleaving with the "
  "scheduler's timers (including late replies, repeated cancels, cancels of unknown or finished work, workers that "
  "vanish and come back, and functions being deleted), raises an exception out of the scheduler's loops or leaves one "
  "of them stuck.",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of protocol-conforming messages and timer ticks for plain tasks, functions and workers",
  T + "one exception in any handler ends the scheduler process, and only a handful of sequences is ever run.",
  [SM, STM, SWM, SFM, SCM, QA],
  [("Scheduler.on_receive_message dispatch", SM), ("membership guards in the managers", STM)],
  observe=["scheduler process stays alive"])
p("S03", "Losing a worker reroutes all of its unfinished tasks",
  "When a worker disconnects or is declared dead, every task assigned to it that has no result yet is queued again "
  "and goes to another (or the returning) worker, tasks of other workers are not affected, and nothing is sent to "
  "the lost worker until it is heard from again.",
  ["fault_sequences", "schedules"], "worker loss at every point of a task's life, including repeated loss",
  "no test kills or disconnects a worker.",
  [SWM, QA, STM], [("VanillaWorkerManager.__disconnect_worker", SWM), ("QueuedAllocator.remove_worker", QA)],
  observe=["Task frames sent to workers"])
p("S04", "A handed-back task is rescheduled exactly once",
  "When a worker answers a rebalancing request, each task it hands back that is still assigned to it is detached "
  "from it and scheduled again exactly once; tasks that finished, were cancelled or moved meanwhile are ignored, "
  "and tasks it did not hand back stay where they are.",
  ["schedules", "histories"], "every interleaving of a hand-back with results, cancels and worker loss",
  "rebalancing happens by chance in test_sleep, without assertions about it.",
  [SWM, QA, STM], [("VanillaWorkerManager.on_balance_response", SWM), ("on_task_reroute", STM)],
  observe=["Task frames sent to workers"])
p("S05", "Cancelling a task stops it wherever it is",
  "Cancelling a task that is still queued in the scheduler removes it (it is never sent to a worker afterwards) and "
  "answers the client with a cancelled result; cancelling a task that was sent to a worker forwards the cancellation "
  "to exactly that worker and the worker's answer is relayed; cancelling an unknown or finished task changes nothing.",
  ["schedules", "histories"], "a cancel at every point of a task's life",
  "test_noop_cancel sends cancels but asserts nothing about them.",
  [STM, SWM], [("VanillaTaskManager.on_task_cancel", STM), ("VanillaWorkerManager.on_task_cancel", SWM)],
  observe=["TaskCancel frames", "TaskResult frames"])
p("S06", "No worker is ever given more tasks than its queue size",
  "The number of unfinished tasks assigned to one worker never exceeds the configured per-worker queue size, a task "
  "is assigned to at most one worker at a time, new tasks go to a worker with the least assigned tasks, and the load "
  "the scheduler believes a worker has equals the number of tasks assigned to it after every assignment, completion, "
  "hand-back and admission check.",
  ["histories"], "every sequence of assignments, completions, removals and availability checks, for any queue size",
  "the tests never fill a worker's queue of 1000 tasks and never look at the load counters.",
  [QA, PQ], [("QueuedAllocator.assign_task / remove_task", QA), ("PriorityQueue heap and locator", PQ)],
  state=[("worker queue counts", "believed load", QA), ("worker to task ids", "actual load", QA)],
  observe=["tasks sent per worker", "free/sent statistics"])
p("S07", "A function stays available as long as a task needs it",
  "The scheduler keeps a registered function at least while any accepted task uses it and until it has been idle for "
  "longer than the retention time; then, and only then, the periodic check drops it, and every connected worker is told to drop it too. "
  "A delete request for a function in use is refused, for an unused one it is carried out and confirmed, and a worker "
  "asking for a function receives its content under the same id.",
  ["histories", "schedules"], "every interleaving of registration, use, completion, expiry, deletion and worker requests",
  "functions never expire within a test, and Delete/Check requests are never sent.",
  [SFM, SWM, STM], [("VanillaFunctionManager.routine", SFM), ("on_task_use_function / on_task_done_function", SFM)],
  observe=["FunctionResponse frames", "FunctionRequest(Delete) frames"])
p("S08", "Admission: each task is accepted or rejected explicitly, never dropped",
  "Every new task is answered to its sender with exactly one echo: rejected as function-not-exists when its function "
  "is unknown, rejected as no-worker when no worker has a free slot and the configured waiting limit is reached, and "
  "accepted otherwise. A rejected task leaves no trace and is never dispatched; a limit of -1 means unlimited.",
  ["inputs", "histories", "configurations"], "every combination of known/unknown function, free slots, queue length and limit",
  "the limit is never configured in the tests and no task refers to an unknown function.",
  [STM, SWM, QA], [("VanillaTaskManager.on_task_new", STM)], observe=["TaskEcho frames"])
p("S09", "Finished work leaves nothing behind in the scheduler",
  "Once a task or graph has reached its terminal state (success, failure, cancellation or not found), no table of the "
  "scheduler mentions it any more: it holds no worker slot, does not count as a client's task, does not keep its "
  "function alive and is not queued.",
  ["histories", "schedules"], "every path by which a task or graph can end",
  "tests do not look at the scheduler's tables; a leak shows only after days.",
  [STM, SWM, SFM, SCM, SGM, QA], [("VanillaTaskManager.on_task_done", STM), ("GraphManager.__clean_graph", SGM)],
  observe=["SchedulerState statistics", "function expiry"])
p("S10", "The monitoring stream reports every task state change",
  "For every accepted task the monitor stream carries inactive when it is queued (again), running when it has been "
  "given to a worker, canceling when a cancellation was forwarded, and its terminal status exactly once, each with "
  "the task's id and its function's name. When a graph is started, each of its nodes is announced once, as target or not, "
  "with the nodes it depends on.",
  ["histories", "schedules"], "every path through a task's life",
  "no test subscribes to the monitor address.",
  [STM, SFM, SGM], [("VanillaTaskManager.__send_monitor", STM), ("GraphManager.__add_new_graph", SGM)], observe=["TaskState and GraphTaskState frames on the monitor socket"])
p("S11", "Only a silent worker is declared dead",
  "The scheduler declares a worker dead exactly when more than the configured timeout has passed since that worker's "
  "last heartbeat; every heartbeat (re)registers the worker, refreshes its time stamp and is echoed to it, and a "
  "disconnect request removes exactly the worker it names and is confirmed to its sender.",
  ["schedules", "configurations"], "every order of heartbeats, timer ticks and disconnects; any timeout",
  "the timeout of 60 s is never reached in a test.",
  [SWM], [("VanillaWorkerManager.on_heartbeat", SWM), ("VanillaWorkerManager.__clean_workers", SWM)],
  observe=["HeartbeatEcho / DisconnectResponse frames", "Task frames"])

p("S12", "The status report tells the scheduler's actual state",
  "Every status report gives the number of tasks that wait for a worker, the number given to workers, how many tasks "
  "ended with each status, exactly one row for each connected worker (the number of tasks given to it, its free "
  "slots, the CPU, memory, queue, latency and flag figures of its own last heartbeat and the time since then), for each client the "
  "number of its unfinished tasks and graphs, for each function name the number of unfinished tasks that use a "
  "function of that name, and the load and memory of the scheduler's own process.",
  ["histories", "schedules"], "every scheduler state; any figures in the heartbeats",
  "no test reads a status report.",
  ["scaled/scheduler/status_reporter.py", SWM, STM, SFM, SCM, QA],
  [("StatusReporter.routine", "scaled/scheduler/status_reporter.py"), ("statistics() of each manager", SWM)],
  observe=["SchedulerState JSON"])
p("S13", "Overloaded workers are asked for exactly their surplus, when asked for",
  "With rebalancing switched off no worker is ever asked to hand tasks back. With it on, the periodic check asks each "
  "worker that has more tasks than the mean for its surplus over the mean, rounded up, as soon as some worker is idle "
  "while others have tasks and the same imbalance has been seen in the configured number of consecutive checks (one "
  "included), not earlier, and asks no other worker.",
  ["histories", "configurations"], "every history of loads, any number of equal rounds including one",
  "test_sleep measures nothing about the distribution.",
  [QA, SWM], [("QueuedAllocator.balance", QA), ("VanillaWorkerManager.routine", SWM)], observe=["BalanceRequest frames"])
# ---------------------------------------------------------------- graphs
p("G01", "A graph node runs once, after its dependencies, with their results",
  "A node of a submitted graph is dispatched exactly once, only after every node it refers to has succeeded, and with "
  "each reference replaced, at its own argument position, by the referenced node's result (also when a node is "
  "referenced several times or by several nodes), while data arguments are passed unchanged.",
  ["inputs", "schedules"], "every graph shape, every completion order of its nodes",
  "test_graph runs one graph in which no argument is repeated.",
  [SGM], [("GraphManager.__check_one_graph", SGM), ("GraphManager.__get_task_result", SGM)],
  observe=["Task frames sent to workers"])
p("G02", "A completed graph is answered once with its targets' results in order",
  "When all nodes of a graph have succeeded, its client receives exactly one successful graph result carrying the "
  "results of the requested targets in the requested order, whether or not a target is also an argument of other "
  "nodes; no result is sent before that.",
  ["inputs", "schedules"], "every graph shape and target selection, every completion order",
  "test_graph requests one final node.",
  [SGM], [("GraphManager.__finish_one_graph", SGM), ("GraphManager.__get_target_results", SGM)],
  observe=["GraphTaskResult frames"])
p("G03", "A failed or cancelled graph stops cleanly",
  "When a node of a graph fails, the client receives exactly one graph result with that failure, nodes not yet "
  "started never start, and nodes queued or running are cancelled; when the client cancels a graph the same happens "
  "without a result. Whatever state the nodes are in, and even if the cancel is late, unknown or repeated, the "
  "scheduler keeps running and nothing of the graph remains.",
  ["schedules", "histories", "fault_sequences"],
  "failure or cancel at every point, with the other nodes inactive, queued, running or done",
  "test_graph_fail has one failing node while a dependent node is inactive.",
  [SGM, STM], [("GraphManager.__clean_graph", SGM), ("GraphManager.on_task_done", SGM)],
  observe=["GraphTaskResult / TaskCancel frames", "scheduler process stays alive"])

# ---------------------------------------------------------------- worker
p("W01", "Every task given to a worker is answered exactly once",
  "For every task a worker agent receives it sends to the scheduler exactly one of: a result, a cancellation, or the "
  "task's id in a rebalancing answer; as long as the processor answers, no order of new tasks, cancels, rebalancing and "
  "processor messages makes it forget a task or block for ever.",
  ["schedules", "histories"], "every interleaving of tasks, cancels, balance requests and processor messages",
  T + "cancels and rebalancing race with execution only by chance.",
  [WTM, WPM, WK], [("worker VanillaTaskManager", WTM), ("VanillaProcessorManager", WPM)],
  state=[("queued tasks", "waiting in the agent", WTM), ("current task and lock", "given to the processor", WPM)],
  observe=["frames sent by the worker"])
p("W02", "The worker agent survives every message order",
  "No order of scheduler messages (task, cancel, balance request, function reply, function delete, heartbeat echo) and "
  "processor messages (ready, function request, result), including messages that arrive when no task is running or "
  "while the processor is restarting, raises an exception out of the agent's loops.",
  ["schedules", "histories"], "every interleaving of external and internal messages",
  T + "cancels never meet an idle or restarting processor in a reproducible way.",
  [WK, WPM, WTM], [("guards in VanillaProcessorManager", WPM)], observe=["worker process stays alive"])
p("W03", "A worker runs one task at a time, in order of arrival",
  "The processor is handed a task only when it is ready and holds no other task, the next task is started only after "
  "the current one was answered or cancelled, and queued tasks are started in the order in which they arrived.",
  ["schedules", "histories"], "every interleaving of arrivals, completions, cancels and restarts",
  "tests cannot see which task the processor holds.",
  [WPM, WTM, IQ], [("task_wait_lock and initialized event", WPM)], observe=["frames on the internal socket"])
p("W04", "Cancelling the running task restarts the processor and nothing stale leaks",
  "Cancelling the task the processor is executing terminates exactly that processor process, starts a fresh one, "
  "answers cancelled, and the following tasks run in the fresh one; a result that does not belong to the current task "
  "is never forwarded, and cancelling a task that is merely queued never disturbs the processor.",
  ["schedules", "histories"], "cancel at every point relative to execution and processor start-up",
  "test_noop_cancel asserts nothing.",
  [WPM, WTM], [("VanillaProcessorManager.on_cancel_task / restart_processor", WPM)],
  observe=["processes started and signalled", "frames sent by the worker"])
p("W05", "Whatever a task does, its processor answers and lives on",
  "For every function and argument list, including functions or arguments that cannot be deserialized, functions that "
  "raise anything but KeyboardInterrupt (also exceptions that cannot be serialized and SystemExit), and results that cannot be "
  "serialized, the processor sends exactly one result for the task, successful only if the call and the serialization "
  "succeeded and otherwise failed with an exception as payload, and is ready for the next task.",
  ["inputs", "programs"], "every user function, argument, exception and result",
  "test_raise_exception raises one picklable ValueError.",
  [PR], [("Processor.__process_task", PR), ("Processor.__on_receive_function_response", PR)],
  observe=["TaskResult sent by the processor"])
p("W06", "A task is executed with the function it names",
  "A task is executed with the function registered under its function id and with its own arguments in order; if the "
  "function is not cached it is requested once and the task waits for it, and neither a delete request nor the idle-"
  "function cleaner, running concurrently in its own thread, can make a task lose its function between look-up and call.",
  ["schedules", "inputs"], "every interleaving of the processor with the cache cleaner and of task/function/delete messages",
  "functions never expire within a test.",
  [PR, CC], [("Processor.__on_received_task", PR), ("CacheCleaner", CC)], observe=["TaskResult", "FunctionRequest"])
p("W07", "A worker that stops leaves nothing running",
  "However the agent's main loop ends (signal, scheduler silence or an unexpected error), the worker announces its "
  "disconnect to the scheduler, terminates its processor, closes its sockets and removes its socket file.",
  ["fault_sequences", "schedules"], "every way in which the agent's loops can end",
  "tests tear the cluster down without checking for leftovers.",
  [WK, WPM], [("Worker.__get_loops clean-up", WK), ("VanillaProcessorManager.destroy", WPM)],
  observe=["DisconnectRequest frame", "signal to the processor"])
p("W08", "Heartbeats are never doubled and silence is noticed",
  "A worker sends a heartbeat only when none is unanswered, only with a live processor to report on; each awaited echo "
  "refreshes the last-seen time, and the worker gives up exactly when the configured death timeout has passed since "
  "it last heard an echo (or since it started).",
  ["schedules", "configurations"], "every order of heartbeat ticks, echoes and time-out ticks",
  "no test stops the scheduler while workers run.",
  [WHB, WTO], [("VanillaHeartbeatManager.routine / on_heartbeat_echo", WHB), ("VanillaTimeoutManager.routine", WTO)],
  observe=["Heartbeat frames", "TimeoutError"])

p("W09", "Heartbeats report the worker's actual state",
  "Every heartbeat carries the CPU load (as a fraction) and resident memory of the agent's own process and of the "
  "processor process that is current at that moment (the new one after a restart), the number of tasks that wait in "
  "the worker, half of the round trip time of the last answered heartbeat in microseconds (0 before the first answer), "
  "whether the current processor has announced itself, whether a task is being run, and whether the processor is taken.",
  ["histories", "schedules"], "every order of tasks, cancels, processor restarts, heartbeats and echoes",
  "no test looks at the content of a heartbeat.",
  [WHB, WPM, WTM], [("VanillaHeartbeatManager.routine", WHB), ("current_task / initialized / task_lock", WPM)],
  observe=["Heartbeat frames", "worker table of the monitor"])

p("W11", "A worker hands back as many waiting tasks as it is asked for",
  "Every rebalancing request is answered by exactly one answer that names, each once, as many of the tasks that wait in "
  "the worker as were asked for, or all of them when fewer wait; it never names a task that is being executed, was "
  "cancelled, answered or handed back before, and tasks it does not name are still executed there.",
  ["histories", "schedules"], "every order of tasks, cancels, requests for any number of tasks and processor messages",
  "the tests never rebalance on purpose.",
  [WTM, WK], [("VanillaTaskManager.on_balance_request", WTM), ("Worker on BalanceRequest", WK)],
  observe=["BalanceResponse frames"])

p("W10", "The processor keeps its memory bounded",
  "In every round of its housekeeping thread the processor forgets a cached function exactly when it has not been used "
  "for longer than the retention time (a deletion request makes it forget the named one at once), collects garbage "
  "exactly when the collection interval has passed since the last collection, and gives memory back to the system "
  "exactly when, after a collection, its own resident memory is not below the threshold. The thread never ends.",
  ["histories", "schedules", "configurations"],
  "every order of tasks, function arrivals, deletion requests and housekeeping rounds, every interval and threshold",
  "no test keeps a processor idle for the minutes these periods take.",
  [CC, PR], [("CacheCleaner", CC), ("Processor.__on_receive_task", PR)],
  observe=["function cache of the processor", "collections, trims"])

# ---------------------------------------------------------------- protocol / io
p("P01", "Every message decodes to what was encoded",
  "For every message type, decoding the frames produced by encoding a message yields an equal message (up to the precision "
  "of fields sent as single-precision numbers): every field is "
  "written exactly once and read back from where it was written, including variable-length parts of any length.",
  ["inputs"], "every message type, every field value, variable-length parts of length 0, 1, 2, ...",
  "the tests use about half of the message types and never an empty graph, an empty hand-back or a monitor message.",
  [MSG], [("serialize / deserialize of every message class", MSG)], observe=["deserialize(serialize(m)) == m"])
p("P02", "The message registry is total and unambiguous",
  "Every declared message type has exactly one codec class and a wire tag of its own, every enumeration carried on the "
  "wire has distinct values, and every message class that any component sends is registered under a tag that leads "
  "back to it.",
  ["programs"], "every message class, type tag and wire enumeration",
  "unused or monitor-only types are never exchanged in a test.",
  [MSG], [("PROTOCOL", MSG), ("MessageType", MSG)], observe=["tag sent for a message", "class decoded for a tag"])
p("P03", "Every message one side sends is handled by the other",
  "For each pair of communicating roles (client-scheduler, scheduler-worker, worker-processor), every message type and "
  "request kind that one side can send is dispatched by the receiving side to the handler for it, with the identity of "
  "the sender where the answer depends on it; a message of an unexpected kind never stops the scheduler.",
  ["programs", "inputs"], "every message type and every send site of every role",
  "several message kinds (cancel, delete, hand-back, disconnect) occur only by chance.",
  [SM, WK, CL, PR, WPM, SFM], [("isinstance dispatch of each role", SM)], observe=["handlers reached per message"])
p("P04", "Malformed frames are dropped, well-formed ones delivered exactly once",
  "A multipart message that is too short or carries an unknown type tag is discarded without reaching the application "
  "and without ending the receive loop; every other message is decoded by the codec of its tag and delivered to the "
  "registered callback exactly once, with its true sender.",
  ["inputs"], "every frame count and every tag, on each of the three transports and the monitor client",
  "no test sends a malformed frame.",
  [AB, AC, SC, TOP], [("__is_valid_message", AB), ("routine", AC), ("__routine_receive", SC)],
  observe=["callback invocations"])
p("P05", "Sending puts exactly one correctly addressed message on the wire",
  "Every send operation of every transport transmits exactly one multipart message: receiver identity first where the "
  "transport routes, then the tag of the message's own type, then the message's frames; queued client messages leave in "
  "the order in which they were queued and none is skipped or repeated; sockets are created without a high-water mark, with the "
  "identity the object reports.",
  ["inputs", "schedules"], "every message type on each transport, every interleaving of queueing and sending",
  "tests observe delivery only in aggregate.",
  [AB, AC, SC], [("AsyncBinder.send", AB), ("AsyncConnector.send", AC), ("SyncConnector.send / __routine_send", SC)],
  observe=["frames on the socket"])
p("P06", "A socket is only ever touched by the thread that runs it",
  "After construction, the client's (and processor's) socket is used only from the connector's own thread of control: "
  "calls of the public API made by user threads never reach a socket operation.",
  ["schedules", "programs"], "every call path from the public API",
  "using a socket from two threads fails only rarely.",
  [SC, CL, PR], [("SyncConnector.send queue", SC)], observe=["thread performing socket operations"])
p("P07", "The message counters tell what went over the wire",
  "The scheduler's binder counts every well-formed message it receives and every message it sends exactly once, under that "
  "message's own type and direction; malformed frames count for nothing, reading the counters changes nothing, and counts never "
  "wrap, saturate or reset while the scheduler runs. The status report publishes them.",
  ["histories", "inputs"], "every sequence of received frames and sent messages",
  "no test reads the counters; a message counted twice, under another name or not at all breaks nothing else.",
  [AB], [("AsyncBinder.__count_one", AB), ("AsyncBinder.statistics", AB)],
  state=[("counters", "messages per direction and type", AB)],
  observe=["binder part of the status report"])

# ---------------------------------------------------------------- utilities
p("U01", "The indexed queue is a FIFO of distinct items with removal",
  "For every sequence of operations and every hashable items, the indexed queue yields items in insertion order, "
  "removes exactly the given item wherever it is, rejects a duplicate or an absent item with KeyError leaving the queue "
  "unchanged, and its size and membership always agree with its content; distinct items never interfere, even if their "
  "hashes are equal.",
  ["histories", "inputs"], "every sequence of put, get, remove and membership test",
  "test_indexed_queue runs one sequence of six puts and three removes.",
  [IQ], [("_DoubleLinkedList", IQ), ("_IndexedDoubleLinkedQueue", IQ)], observe=["results of get, remove, qsize, in"])
p("U02", "The priority queue's index always designates its own heap entries",
  "For every sequence of operations the priority queue hands out an entry of minimal priority, every queued item is "
  "found by its index and the index refers to the very entry in the heap, so changing or removing an item by name "
  "affects that item alone; asking for the best priority changes nothing.",
  ["histories"], "every sequence of put, get, remove, decrease and peek",
  "no test uses the priority queue directly.",
  [PQ], [("PriorityQueue._put/_get/remove/decrease_priority/max_priority", PQ)],
  observe=["results of get, remove, decrease_priority"])
p("U03", "Both directions of the multimaps always agree",
  "After every operation the one-to-many dictionary's two directions describe the same relation, a value belongs to at "
  "most one key, and no key without values remains; the key-to-set dictionary keeps a key exactly while its set is "
  "non-empty; an operation that raises leaves the map unchanged.",
  ["histories"], "every sequence of add, remove_key, remove_value and look-ups",
  "no test uses them directly.",
  [OM, KV], [("OneToManyDict", OM), ("KeyValueDictSet", KV)], observe=["get_key, get_values, has_key, has_value"])
p("U04", "Addresses are parsed strictly and format back to themselves",
  "Every address string is either rejected with ValueError or parsed into type, host and port such that formatting "
  "gives the same address (a tcp port in plain decimal digits); tcp needs an integer port, inproc and ipc must not have one, and no configuration that "
  "violates this can be constructed.",
  ["inputs"], "every string and every constructor argument combination",
  "tests use one address.",
  [ZC], [("ZMQConfig.from_string / __post_init__ / to_address", ZC)], observe=["ZMQConfig", "to_address()"])

# ---------------------------------------------------------------- configuration / operation
p("K01", "Every option reaches the component it configures",
  "Each option of the command line programs and of the combined scheduler/cluster object arrives, unchanged and not "
  "swapped with another, at the component whose behaviour it is documented to set (queue size, waiting limit, "
  "timeouts, retention times, balance trigger, memory limits, event loop, I/O threads, serializer, address, number of "
  "workers).",
  ["configurations"], "every option of every entry point, any value",
  "tests run with defaults, where many options share the same value.",
  [COM, CLU, CSP, EPC, EPS, WK, SM, WPM, PR],
  [("constructor chains from entry points to components", COM)], observe=["values used by the components"])
p("K02", "Shutting down reaches every process that was started",
  "Shutting down the combination, or giving it up, stops the scheduler and the cluster; once its workers run, on SIGINT or SIGTERM the "
  "cluster signals every worker it runs, whether it runs them as child processes or in its own process and whether or "
  "not some of them ended before, and every worker so signalled stops its processor and ends its loops; on either "
  "signal the stand-alone scheduler ends its loops and closes its sockets.",
  ["configurations", "fault_sequences"], "any number of workers including one, either signal, at any time after start-up, workers that ended before",
  "tests use three workers and do not check that they end.",
  [COM, CLU, WK, EPS, SM],
  [("Cluster.__destroy", CLU), ("SchedulerClusterCombo.shutdown", COM), ("Worker.__destroy", WK), ("__handle_signal", EPS)],
  observe=["signals and terminations"])
p("K03", "The monitor client understands every status report",
  "Every section and column that the monitor display reads from a status report is always present in the reports the "
  "scheduler publishes, in every scheduler state, and can be serialized to JSON; every sort shortcut names a column "
  "the report contains. The monitor program listens at the address it is given, shows each report without waiting "
  "for a key, goes on to the next, and fails with TimeoutError when none arrives for the time it was told to wait.",
  ["histories", "programs"], "every scheduler state and every shortcut",
  "no test starts the status display.",
  [TOP, "scaled/scheduler/status_reporter.py", SWM, STM, SFM, SCM, AB, QA],
  [("statistics() of each manager", SWM), ("show_status", TOP)], observe=["SchedulerState JSON", "display"])

p("K04", "The monitor shows each reported figure under its own name",
  "On every screen the monitor display draws for a status report, each named value of the scheduler, the task counters, the "
  "message counters, the clients and the functions stands in the row of its name, each connected worker has one row of its own "
  "in which every figure stands under the heading of its name and is the reported value in the unit shown (percent, bytes, time), "
  "and workers are ordered by the column whose shortcut was pressed last, largest first.",
  ["histories", "programs"], "every scheduler state, every shortcut",
  "no test starts the status display.",
  [TOP, "scaled/utility/formatter.py", SWM, STM, SFM, SCM], [("show_status", TOP)], observe=["display"])
p("K05", "Numbers are shown to people with their value and a fitting unit",
  "For every non-negative number, the formatters for byte sizes, times in microseconds, percentages, counts and seconds produce "
  "the number itself, up to rounding, in the unit they print; sizes use the largest unit (b, k, m, g, t, each 1024 of the one "
  "before) that leaves at least one and times ms below one second and s from there; counts are exact; seconds above 60 are "
  "shown as more than 60; only sizes from 1024 t and times from 1000 s may be refused with ValueError.",
  ["inputs"], "every non-negative number", "no test formats a number.",
  ["scaled/utility/formatter.py"], [("format_* functions", "scaled/utility/formatter.py")], observe=["formatted text"])

# ---------------------------------------------------------------- not decided statically
p("N01", "Rebalancing evens out the load",
  "Repeated rebalancing converges to a distribution in which no worker idles while another has tasks waiting.",
  ["histories", "inputs"], "every load distribution and task duration",
  "test_sleep measures nothing about the distribution.",
  [QA, SWM], [("QueuedAllocator.balance", QA)], observe=["BalanceRequest frames"])
p("N03", "User values survive serialization",
  "Every function, argument, result and exception the default serializer accepts arrives equal to what was sent.",
  ["inputs", "programs"], "every picklable value",
  "tests send ints and bytes.",
  ["scaled/protocol/python/serializer/default.py"], [("DefaultSerializer", "scaled/protocol/python/serializer/default.py")],
  observe=["results"])
p("N04", "A task whose processor process dies is still answered",
  "If the processor process is killed from outside (out of memory, crash in native code), the task it was executing is "
  "answered as failed or executed again, and the worker continues with the next task.",
  ["crash_points"], "death of the processor at any point",
  "no test kills a processor.",
  [WPM, WHB], [("none: the agent does not watch its processor", WPM)], observe=["results"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for row in P:
            assert len(row["title"]) <= 80, row["title"]
            f.write(json.dumps(row) + "\n")
    print(len(P), "properties")
