"""Which analyses decide which property."""
from __future__ import annotations

from .worlds.base import load, short
from .explore import Explorer

UNITS = {}
COST = {}
TEXT = {}
PROPERTIES = {}

ASSUMPTIONS = [
    "libraries (zmq, asyncio, threading, multiprocessing, pickle, psutil, bidict, ...) behave as their transfer functions in sa/lib and sa/*.py say",
    "identities are abstracted to a few arbitrary ones per scenario (data independence: the code only compares, stores and forwards them)",
    "time stamps, payloads and configuration values are unconstrained symbols; a condition on them is analysed both ways",
]


def unit(name, cost=1, text=""):
    def deco(fn):
        UNITS[name] = fn
        COST[name] = cost
        TEXT[name] = text
        return fn

    return deco


def report(r, vm, alarms):
    from .loader import REPO, SOURCES
    from .worlds.base import site_text

    r["functions"] = sorted({f"{short(c.file)} {c.name}" for c in vm.coverage if c.file.startswith(REPO + "/") and
                             c.name != "<module>"})
    r["sites"] = sorted({f"{short(f)}:{l} {n} {k}" for k, f, l, n in vm.sites if f.startswith(REPO + "/")})
    r["digest"] = SOURCES.digest()
    r["alarms"] = [{"rule": a.rule, "construct": str(a.construct), "text": a.text, "trace": list(a.trace),
                    "site": site_text(a.site) if a.site else ""} for a in alarms]


class Known:
    """stops an exploration at the first alarm that is not a known finding"""

    def __init__(self, alarms, known):
        self.alarms, self.known = alarms, known

    def new(self):
        return [a for a in self.alarms.values()
                if not self.known({"rule": a.rule, "construct": str(a.construct), "text": a.text})]


def explored(name, make, cost=1, text="", limit=200000):
    """a unit that explores a world to its fixpoint"""

    @unit(name, cost, text)
    def run(pid, r, seconds, known):
        w = make()
        vm = load(w)
        w.props = {pid} if isinstance(pid, str) else set(pid)
        if hasattr(w, "prepare"):
            w.prepare(vm)
        vm.freeze()
        ex = Explorer(vm, w, limit=limit, seconds=seconds)
        ex.known = known
        ex.stop_at = 1
        ex.run()
        r["states"], r["transitions"], r["complete"], r["cuts"] = len(ex.keys), ex.transitions, ex.complete, ex.cuts
        r["checks"] = dict(w.checks)
        new = [a for a in ex.alarms.values() if not known({"rule": a.rule, "construct": str(a.construct), "text": a.text})]
        if new:
            r["complete"] = True
        report(r, vm, ex.alarms.values())


def optioned(name, module, cls, cost, text, **cfg):
    """a unit that explores a world started the way users do; what also goes wrong when the component is started directly is left to
    the property it breaks"""

    @unit(name, cost, text + f" [{', '.join(f'{k}={v}' for k, v in cfg.items() if k != 'graphs')}]")
    def run(pid, r, seconds, known):
        import importlib
        import time

        m = importlib.import_module("sa.worlds." + module)

        def go(conf, alias, left):
            w = getattr(m, cls)(m.Cfg(**conf))
            vm = load(w)
            w.alias = alias
            w.props = {alias} if alias else None
            if hasattr(w, "prepare"):
                w.prepare(vm)
            vm.freeze()
            ex = Explorer(vm, w, limit=200000, seconds=left)
            ex.known = known
            ex.run()
            return w, vm, ex

        begin = time.time()
        w, vm, ex = go(cfg, pid, seconds)
        alarms = dict(ex.alarms)
        if any("-" in a.rule.split("/")[1] and a.rule.split("/")[1].split("-")[0] in PROPERTIES for a in alarms.values()):
            base = {k: v for k, v in cfg.items() if k not in ("start", "n_workers", "which")}
            if module == "sched" and "balance" in base:
                base["trigger"] = None
            same = {(a.rule.replace("/", "-"), a.construct) for a in go(base, None, max(60, seconds - (time.time() - begin)))[2].alarms.values()}
            alarms = {k: a for k, a in alarms.items() if (a.rule.split("/")[1], a.construct) not in same}
        r["states"], r["transitions"], r["complete"], r["cuts"] = len(ex.keys), ex.transitions, ex.complete, ex.cuts
        r["checks"] = dict(w.checks)
        if [a for a in alarms.values() if not known({"rule": a.rule, "construct": str(a.construct), "text": a.text})]:
            r["complete"] = True
        report(r, vm, alarms.values())


def prop(pid, explanation, quick, thorough=(), need=(), level="other", assumptions=(), technique="", note=""):
    PROPERTIES[pid] = dict(explanation=explanation, quick=list(quick), thorough=list(thorough), need=list(need), level=level,
                           assumptions=list(assumptions), technique=technique, note=note)


# ------------------------------------------------------------------------------------------------ scheduler
def sched(name, cost, text, **cfg):
    def make():
        from .worlds.sched import Cfg, SchedWorld

        return SchedWorld(Cfg(**cfg))

    explored("sched." + name, make, cost, text + f" [{', '.join(f'{k}={v}' for k, v in cfg.items() if k != 'graphs')}]")


def graph(nodes, targets):
    from .worlds.sched import Graph

    return (Graph("g1", nodes, targets, "c1"),)


T1 = {"t1": "c1"}
T2 = {"t1": "c1", "t2": "c1"}
TC = {"t1": "c1", "t2": "c2"}
T3 = {"t1": "c1", "t2": "c1", "t3": "c1"}
W1, W2 = ("w1",), ("w1", "w2")
AB = dict(nodes={"a": ("x",), "b": ("a",)}, targets=("b",))
ABC = dict(nodes={"a": ("x",), "b": ("a",), "c": ("a",)}, targets=("b", "c"))
FORK = dict(nodes={"a": ("x",), "b": ("a",), "c": ("y",)}, targets=("b", "c"))
REP = dict(nodes={"a": ("x",), "b": ("a", "a")}, targets=("a", "b"))
MIXED = dict(nodes={"a": ("x",), "b": ("y", "a", "z"), "c": ("b", "a")}, targets=("c", "a"))
DIAMOND = dict(nodes={"a": ("x",), "b": ("a",), "c": ("a",), "d": ("b", "c")}, targets=("d",))

sched("basic", 1, "one task, two workers, either may be lost", tasks=T1, workers=W2)
sched("two", 1, "two tasks, one worker", tasks=T2, workers=W1, mortal=())
sched("two2", 6, "two tasks, two workers, one may be lost", tasks=T2, workers=W2)
sched("three", 1, "three tasks, one worker", tasks=T3, workers=W1, mortal=(), cancels=0)
sched("clients", 1, "tasks of two clients with a waiting limit", tasks=TC, workers=W1, waiting=1, mortal=())
sched("wait", 1, "two tasks with a waiting limit", tasks=T2, workers=W1, mortal=(), waiting=1)
sched("wait0", 1, "two tasks with a waiting limit of zero", tasks=T2, workers=W1, mortal=(), waiting=0)
sched("wait2", 8, "waiting limit, two workers, one may be lost", tasks=T2, workers=W2, waiting=1)
sched("unknown", 1, "cancels of unknown and finished work", tasks=T1, workers=W1, unknown_cancel=True, cancels=2)
sched("display", 1, "status reports shown by the monitor", tasks=T1, workers=W2, status=True, display=True, functions=True, cancels=0)
sched("display_graph", 1, "status reports with a graph shown by the monitor", tasks={}, workers=W1, status=True, display=True, graphs=AB, gcancels=0)
sched("display_waiting", 1, "status reports with failed and canceled tasks shown by the monitor", tasks=T2, workers=W1, status=True, display=True, failing=True, waiting=1)
sched("junk", 3, "messages of unexpected kinds and with unknown ids", tasks=T1, workers=W1, junk=True, cancels=0)
sched("dup", 1, "repeated results", tasks=T1, workers=W2, duplicates=True)
sched("foreign", 20, "disconnect requests for other workers", tasks=T1, workers=W2, foreign_disconnect=True)
sched("silent", 32, "workers that fall silent", tasks=T1, workers=W2, timeouts=True, silent=True)
sched("balance", 50, "rebalancing with cancels", tasks=T2, workers=W2, balance=True, disconnect=False, mortal=(), queue_size=2)
sched("balance_lost", 17, "rebalancing with lost workers", tasks=T2, workers=W2, balance=True, cancels=0, queue_size=2)
sched("balance_stray", 30, "workers hand back work that is not theirs, or the same task twice", tasks=T2, workers=W2, balance=True, cancels=0, disconnect=False,
      mortal=(), queue_size=2, stray=True)
sched("balance_stray2", 30, "workers hand back work that was cancelled or finished, or the same task twice", tasks=T2, workers=W2, balance=True, disconnect=False,
      mortal=(), queue_size=2, stray=True)
sched("balance3", 90, "rebalancing of three tasks", tasks=T3, workers=W2, balance=True, cancels=0, disconnect=False, queue_size=3, mortal=(), trigger=None)
sched("balance_all", 47, "rebalancing, cancels and lost workers", tasks=T2, workers=W2, balance=True, mortal=(), queue_size=2)
sched("silent2", 310, "two clients' tasks, workers that fall silent", tasks=TC, workers=W2, timeouts=True, silent=True, cancels=0)
sched("function", 2, "function requests", tasks=T1, workers=W1, mortal=(), functions=True)
sched("retention", 9, "function requests, retention timer, two workers", tasks=T1, workers=W2, functions=True, ftimer=True)
sched("retention2", 4, "two functions, retention timer", tasks=T2, workers=W1, mortal=(), functions=True, ftimer=True, cancels=0,
      function_of={"t2": "f2"})
sched("burst", 37, "messages that arrive together", tasks=T2, workers=W2, burst=True)
sched("status", 1, "status reports", tasks=T1, workers=W1, status=True)
sched("rounds1", 10, "rebalancing at once", tasks=T2, workers=W2, balance=True, cancels=0, disconnect=False, mortal=(), queue_size=2, trigger=1)
sched("rounds3", 20, "rebalancing after three equal rounds", tasks=T2, workers=W2, balance=True, cancels=0, disconnect=False, mortal=(), queue_size=2, trigger=3)
sched("rounds_surplus", 60, "rebalancing of a surplus of two", tasks=T3, workers=W2, balance=True, cancels=0, disconnect=False, queue_size=3, mortal=(), trigger=1)
sched("report", 5, "status reports compared with the scheduler's state", tasks=T1, workers=W2, status=True, report=True, beats=True)
sched("report_queue", 5, "status reports, several tasks for one worker", tasks=T2, workers=W1, status=True, report=True, queue_size=2)
sched("report_counts", 5, "status reports with counters of ended tasks", tasks=T2, workers=W1, status=True, report=True, counts=True, failing=True, mortal=())
sched("report_functions", 1, "status reports, two functions of the same name", tasks=T2, workers=W1, status=True, report=True, functions=True, same_names=True,
      function_of={"t2": "f2"}, mortal=())
sched("report_clients", 1, "status reports, two clients and a waiting limit", tasks=TC, workers=W1, status=True, report=True, waiting=1)
sched("report_silent", 3, "status reports, workers that fall silent", tasks=T1, workers=W2, status=True, report=True, timeouts=True, silent=True, cancels=0)
sched("report_balance", 9, "status reports, rebalancing", tasks=T2, workers=W2, status=True, report=True, balance=True, cancels=0, disconnect=False, mortal=(), queue_size=2)
sched("report_graph2", 9, "status reports while a graph runs, workers are lost", tasks={}, workers=W2, status=True, report=True, graphs=AB, gcancels=1)
sched("report_graph", 1, "status reports while a graph runs", tasks={}, workers=W1, status=True, report=True, counts=True, graphs=FORK, failing=True)
sched("graph_ab", 1, "two nodes in a row", tasks={}, workers=W1, mortal=(), graphs=AB)
sched("graph_backwards", 1, "nodes listed before the ones they refer to", tasks={}, workers=W1, mortal=(), queue_size=2,
      graphs=dict(nodes={"d": ("b", "c"), "b": ("y", "a"), "c": ("a", "z"), "a": ("x",)}, targets=("c", "d", "a")))
sched("graph_lost", 3, "two nodes in a row, lost workers", tasks={}, workers=W2, graphs=AB)
sched("graph_rep", 1, "a node that refers twice to another, which is a target too", tasks={}, workers=W1, mortal=(), graphs=REP)
sched("graph_mixed", 1, "data and node arguments mixed", tasks={}, workers=W1, mortal=(), graphs=MIXED, queue_size=2)
sched("graph_diamond", 1, "diamond", tasks={}, workers=W1, mortal=(), graphs=DIAMOND, queue_size=2)
sched("graph_diamond2", 5, "diamond, lost workers", tasks={}, workers=W2, graphs=dict(DIAMOND, targets=("d", "a")))
sched("graph_fail", 8, "failing nodes, lost workers", tasks={}, workers=W2, failing=True, graphs=FORK)
sched("graph_cancel", 9, "late, repeated and unknown cancels, lost workers", tasks={}, workers=W2, gcancels=2, unknown_cancel=True, graphs=ABC)
sched("graph_plus", 21, "a graph and a task", tasks=T1, workers=W2, graphs=AB)
sched("graph_wait", 1, "a graph and a task with a waiting limit", tasks=T1, workers=W1, mortal=(), waiting=1, graphs=AB)
sched("graph_fn", 3, "a graph, function requests and the retention timer", tasks={}, workers=W1, mortal=(), functions=True, ftimer=True, graphs=AB)

HOW = ("Abstract interpretation of the scheduler's bytecode from its real entry point (scheduler_main): every message order "
       "conforming clients and workers can produce is applied in every reachable abstract state up to the fixpoint; ")

ALLS = ["sched." + n for n in ("basic", "two", "two2", "wait", "unknown", "dup", "clients", "three")]
GRAPHS = ["sched." + n for n in ("graph_ab", "graph_backwards", "graph_lost", "graph_rep", "graph_mixed", "graph_diamond", "graph_diamond2", "graph_fail",
                                 "graph_cancel")]
BAL = ["sched.balance", "sched.balance_lost"]
DEEP = ["sched." + n for n in ("silent2", "balance_all", "balance3", "burst", "wait2", "foreign", "graph_plus")]

ai = "abstract interpretation of the bytecode with typestate monitors at the sockets"
NOTE = ("Sound for the scenario family listed in the evidence (all message orders, timer interleavings and unknown values over "
        "the listed abstract identities); trusts the library models.")


def sprop(pid, what, quick, thorough=(), need=()):
    prop(pid, HOW + what, quick, list(thorough) + DEEP, need, technique=ai, note=NOTE)


sprop("S01", "every accepted task owes its client exactly one result with the reported status and payload (obligations opened by the "
      "received message, discharged by the send), and from every state with unfinished work its end stays reachable",
      ALLS + BAL + ["sched.silent", "sched.burst"], need=("sent TaskResult", "obligation relay", "sent Task", "obligation result"))
sprop("S02", "no exception leaves a loop, no strand ends or keeps a delivered message unread",
      ALLS + BAL + GRAPHS + ["sched." + n for n in ("silent", "foreign", "retention", "burst", "status", "wait0", "graph_fn", "junk")],
      ["sched.graph_plus"], need=("received TaskCancel", "received GraphTaskCancel", "received BalanceResponse", "received Heartbeat"))
sprop("S03", "a lost worker's tasks are queued again and sent elsewhere, others stay, nothing is sent to a lost worker",
      ["sched.basic", "sched.two2", "sched.balance_lost", "sched.silent", "sched.foreign", "sched.graph_lost"], need=("sent Task",))
sprop("S04", "every id of a rebalancing answer is detached and queued once if it still belongs to the sender, and ignored otherwise",
      BAL + ["sched.balance3", "sched.balance_stray"], ["sched.balance_stray2"], need=("received BalanceResponse", "sent Task"))
sprop("S05", "a cancel of a queued task removes and answers it, of a sent one is forwarded to its worker, of others changes nothing",
      ["sched." + n for n in ("basic", "two", "two2", "unknown", "clients", "balance", "wait")], ["sched.silent"],
      need=("obligation cancel", "obligation result"))
sprop("S06", "the assignment relation of the monitor is compared with the capacity, the least load and the admission decision",
      ["sched." + n for n in ("basic", "two", "two2", "three", "dup", "wait2", "balance", "balance_lost", "balance3", "foreign")], need=("sent Task",))
sprop("S07", "function table automaton: known / in use / idle since; time comparisons are recognised as facts on the clock symbols",
      ["sched." + n for n in ("function", "retention", "retention2", "graph_fn")], need=("sent FunctionResponse", "sent FunctionRequest"))
sprop("S08", "every new task owes one echo whose status follows from function table, free slots and queue length",
      ["sched." + n for n in ("two", "two2", "wait", "wait0", "wait2", "clients", "function", "retention2")], need=("obligation echo", "sent TaskEcho"))
sprop("S09", "heap scan after every reaction: no container reachable from the scheduler's strands mentions the id of finished work",
      ALLS + BAL + GRAPHS + ["sched.wait0", "sched.retention2"], need=("sent TaskResult",))
sprop("S10", "every state change of the task automaton owes one stream record with id and function name; none without cause",
      ALLS + BAL + ["sched.graph_ab", "sched.graph_fail", "sched.graph_cancel", "sched.graph_backwards", "sched.graph_mixed", "sched.graph_rep",
                  "sched.graph_diamond2", "sched.silent"], need=("obligation stream", "published TaskState", "obligation node", "published GraphTaskState"))
sprop("S12", "every published report is read as JSON and every figure compared with the automata of tasks, workers, functions and clients; figures of "
      "workers with the symbols of the worker's own last heartbeat", ["sched.report" + n for n in ("", "_queue", "_counts", "_functions", "_clients", "_graph", "_silent", "_balance", "_graph2")],
      need=("report compared", "published SchedulerState"))
sprop("S13", "a rebalancing request is sent in the periodic duty only, when switched on, to the workers above the mean while another is idle, for the "
      "surplus, and after the number of equal rounds asked for", ["sched." + n for n in ("rounds1", "rounds3", "rounds_surplus", "balance", "balance_lost", "silent")],
      ["sched.balance_all"], need=("rebalancing compared", "obligation balance"))
sprop("S11", "a worker is dropped only on the comparison of its own last heartbeat with the time-out, heartbeats are echoed, "
      "disconnects remove and confirm the worker they name",
      ["sched.basic", "sched.silent", "sched.foreign", "sched.two2"], need=("obligation echo_hb", "obligation disconnect", "received Heartbeat"))
sprop("G01", "a node is dispatched only when its dependencies have succeeded, once, and with their results at the argument positions",
      GRAPHS + ["sched.graph_wait"], ["sched.graph_plus"], need=("sent Task", "received GraphTask"))
sprop("G02", "the last node's success owes the client one graph result with the targets' results in order",
      [g for g in GRAPHS], ["sched.graph_plus"], need=("obligation gresult", "sent GraphTaskResult"))
sprop("G03", "a failure owes one failed graph result and the cancels of running nodes; a cancel the cancels; nothing starts afterwards",
      ["sched.graph_fail", "sched.graph_cancel", "sched.graph_ab", "sched.graph_lost", "sched.graph_diamond2"], ["sched.graph_plus"],
      need=("received GraphTaskCancel", "obligation cancel", "sent GraphTaskResult"))


# ------------------------------------------------------------------------------------------------ worker agent
def world_unit(prefix, module, cls):
    def add(name, cost, text, **cfg):
        def make():
            import importlib

            m = importlib.import_module("sa.worlds." + module)
            return getattr(m, cls)(m.Cfg(**cfg))

        explored(prefix + "." + name, make, cost, text + f" [{', '.join(f'{k}={v}' for k, v in cfg.items())}]")

    return add


worker = world_unit("worker", "worker", "WorkerWorld")
worker("one", 1, "one task, canceled at any point, repeatedly, functions missing", tasks=("t1",), cancels=2, unknown_cancel=True, load=True,
       missing=True, failing=True)
worker("two", 1, "two tasks, two functions, dropped functions", tasks=("t1", "t2"), load=True, functions={"t2": "g"}, delete=True)
worker("missing", 1, "two tasks of a function that may be gone", tasks=("t1", "t2"), load=True, missing=True, failing=True)
worker("balance", 5, "two tasks handed back and forth", tasks=("t1", "t2"), balance=True, resend=True)
worker("heart", 2, "heartbeats, silence of the scheduler, interrupts", tasks=("t1",), heartbeat=True, timeout=True, sigint=True, stray=True)
worker("burst", 22, "messages that arrive together", tasks=("t1", "t2"), balance=True, load=True, functions={"t2": "g"}, delete=True, burst=True)
worker("burst2", 10, "messages that arrive together, repeated cancels, missing functions", tasks=("t1", "t2"), cancels=2, load=True, missing=True,
       burst=True, unknown_cancel=True)
worker("heart_two", 7, "two tasks, cancels, heartbeats", tasks=("t1", "t2"), heartbeat=True)
worker("heart_burst", 7, "messages that arrive together, heartbeats, silence, interrupts", tasks=("t1",), heartbeat=True, timeout=True, sigint=True,
       failing=True, burst=True)
worker("three", 63, "three tasks handed back and forth", tasks=("t1", "t2", "t3"), balance=True, resend=True)
worker("mix", 70, "handing back, functions, failures and heartbeats", tasks=("t1", "t2"), balance=True, load=True, failing=True, resend=True,
       heartbeat=True)
worker("mix3", 155, "three tasks, handing back, functions, unknown cancels", tasks=("t1", "t2", "t3"), load=True, resend=True, balance=True,
       unknown_cancel=True)

HOWW = ("Abstract interpretation of the worker agent's bytecode from Worker.run: every order of messages of a conforming scheduler and a "
        "conforming processor is applied in every reachable abstract state up to the fixpoint; ")
WALL = ["worker." + n for n in ("one", "two", "missing", "balance", "burst", "burst2")]
WDEEP = ["worker." + n for n in ("three", "mix", "mix3")]


def wprop(pid, what, quick, need=()):
    prop(pid, HOWW + what, quick, WDEEP, need, technique=ai, note=NOTE)


wprop("W01", "every received task owes exactly one of result, Canceled or hand-back, every cancel one answer, the processor is never idle "
      "while a task waits, and from every state an end of every task stays reachable", WALL,
      need=("obligation canceled", "obligation result", "obligation notfound", "to scheduler: BalanceResponse", "to processor: Task"))
wprop("W02", "no exception leaves a loop, no strand ends or keeps a delivered message unread", WALL + ["worker.heart", "worker.heart_burst"],
      need=("scheduler: Task", "scheduler: TaskCancel", "scheduler: FunctionResponse", "processor: TaskResult"))
wprop("W03", "a task is given to the processor only when it is announced and free, oldest first",
      ["worker." + n for n in ("one", "two", "balance", "burst", "burst2")], need=("to processor: Task",))
wprop("W04", "a cancel of the running task owes the end of exactly that process, a new one and the answer; late messages of the old process "
      "are never passed on", ["worker." + n for n in ("one", "two", "missing", "burst", "burst2")],
      need=("obligation kill", "obligation new"))
wprop("W07", "at every end of the main task (interrupt, silence, failing loop) the good-bye, the signal to the processor, the closed sockets "
      "and the removed socket file are required", ["worker.heart", "worker.heart_burst"], need=("to scheduler: DisconnectRequest",))
wprop("W08", "automaton of the heartbeat: at most one unanswered; the comparison of the death timeout with the last clock reading is "
      "recognised as a fact on the clock symbols", ["worker.heart", "worker.heart_burst"],
      need=("to scheduler: Heartbeat", "obligation silence", "scheduler: HeartbeatEcho"))

wprop("W09", "every figure of every heartbeat is traced to what it was computed from: the reading of which process, how many waiting tasks, which clock readings",
      ["worker.heart", "worker.heart_burst", "worker.heart_two"], need=("heartbeat compared", "to scheduler: Heartbeat"))

wprop("W11", "every rebalancing answer is compared with the request it answers and with the tasks that wait in the worker at that moment",
      ["worker." + n for n in ("balance", "burst")],
      need=("rebalancing answer compared", "scheduler: BalanceRequest", "obligation balance"))

# ------------------------------------------------------------------------------------------------ processor process
processor = world_unit("processor", "processor", "ProcessorWorld")
processor("failures", 1, "functions, arguments, results and exceptions that fail in every way", tasks={"t1": "f", "t2": "g"}, bad_function=True,
          bad_argument=True, raising=True, bad_result=True, repeat=2, cleaner=False, twice=True)
processor("cleaner", 3, "main thread and cleaner thread interleaved at every shared access", repeat=2, delete=True, twice=True)
processor("cleaner2", 5, "the same with two functions", tasks={"t1": "f", "t2": "g"}, delete=True)
keeping = world_unit("processor", "keeping", "KeepingWorld")
keeping("keeping", 1, "rounds of the cleaner between tasks of two functions", tasks={"t1": "f", "t2": "g"}, delete=True)
processor("same", 35, "two tasks of one function, failing", tasks={"t1": "f", "t2": "f"}, repeat=2, twice=True, raising=True, bad_result=True)

HOWP = ("Abstract interpretation of the processor's bytecode from Processor.run, its main thread and the cache cleaner thread interleaved at "
        "every access to an object both can reach, user code by unknown outcomes; ")
prop("W05", HOWP + "every received task owes one function request or one result whose status and payload follow from what the user code did, "
     "and no exception ends the process", ["processor.failures", "processor.cleaner"], ["processor.cleaner2", "processor.same"],
     need=("received Task", "user function called", "sent TaskResult"), technique=ai + ", thread interleaving",
     note=NOTE + " KeyboardInterrupt raised by a task means stop and is not covered.")
prop("W06", HOWP + "the function and arguments of every call are compared with those the task names, a function is asked for once and "
     "passed on unchanged by the agent", ["processor.failures", "processor.cleaner", "processor.cleaner2", "worker.two", "worker.burst"],
     ["processor.same"], need=("user function called", "sent FunctionRequest", "to processor: FunctionResponse", "obligation delete"),
     technique=ai + ", thread interleaving", note=NOTE)
prop("W10", HOWP.replace(", its main thread and the cache cleaner thread interleaved at every access to an object both can reach", " and the cleaner it starts, in rounds between tasks")
     + "every comparison of clock readings with the retention time or the collection interval and of the processor's memory with the threshold is recognised as a fact on "
     "its symbols; each round must make them with the right readings and do what they say", ["processor.keeping"],
     need=("round of the cleaner", "function dropped", "garbage collected", "memory trimmed", "sent FunctionRequest"), technique=ai, note=NOTE)


# ------------------------------------------------------------------------------------------------ client
from .worlds import drivers as D  # noqa: E402

client = world_unit("client", "client", "ClientWorld")
_args = world_unit("client", "arguments", "ArgsWorld")
ALLST = ("Success", "Failed", "Canceled", "NotFound")
ALLE = ("SubmitOK", "FunctionNotExists", "NoWorker")
T12 = D.tasks(("t1", "f"), ("t2", "f"))
WAIT12 = (D.wait("t1"), D.wait("t2"))
SUB12 = (D.submit("t1", "f"), D.submit("t2", "f"))
GA = {"a": ("fa", ("x",)), "b": ("fb", ("a",)), "c": ("fc", ("a", "b")), "x": "dx"}
GB = {"a": ("fa", ("x",)), "b": ("fb", ("a",)), "x": "dx"}
GM = {"x": "dx", "b": ("f", ("y", "a", "x")), "a": ("f", ("x",)), "y": "dy", "c": ("f", ("b", "a", "b")), "z": "dz"}
FABC = ("fa", "fb", "fc")
GL = {"a": ("f", ("x",)), "b": ("g", ("a",)), "c": ("h", ("a", "b")), "x": "dx"}

client("two", 6, "two tasks of one function, threads interleaved", program=D.program("f", *SUB12, *WAIT12), tasks=T12)
client("two_fg", 7, "two tasks of two functions, threads interleaved",
       program=D.program("fg", D.submit("t1", "f", 2), D.submit("t2", "g", 0), *WAIT12), tasks={**D.task("t1", "f", 2), **D.task("t2", "g", 0)})
client("replies", 1, "every conforming reply, payloads that cannot be loaded", program=D.program("f", *SUB12, *WAIT12), tasks=T12, statuses=ALLST,
       echoes=ALLE, bad_payload=True, preempt=False)
client("replies_fg", 1, "every conforming reply to tasks of two functions",
       program=D.program("fg", D.submit("t1", "f"), D.submit("t2", "g"), D.submit("t3", "f"), D.wait("t1"), D.submit("t4", "g"), *[D.wait(t) for t in ("t2", "t3", "t4")]),
       tasks=D.tasks(("t1", "f"), ("t2", "g"), ("t3", "f"), ("t4", "g")), statuses=("Success", "Failed"), echoes=ALLE[:2], preempt=False)
client("replies_p", 15, "refused and canceled tasks, threads interleaved", program=D.program("f", *SUB12, *WAIT12), tasks=T12,
       statuses=("Success", "Canceled"), echoes=ALLE)
client("three", 60, "three tasks of two functions, threads interleaved",
       program=D.program("fg", *SUB12, D.submit("t3", "g"), *WAIT12, D.wait("t3")), tasks={**T12, **D.task("t3", "g")}, echoes=ALLE[:2])
client("cancel", 27, "a future canceled by its owner at any time", program=D.program("f", *SUB12, D.cancel("t1"), D.wait("t2")), tasks=T12,
       statuses=ALLST, echoes=ALLE, props="C08")
client("cancel_disconnect", 3, "a future canceled by its owner, then the client is disconnected",
       program=D.program("f", D.submit("t1", "f"), D.cancel("t1"), D.wait("t1"), D.DISCONNECT), tasks=D.tasks(("t1", "f")), statuses=ALLST, echoes=ALLE,
       bad_payload=True, props="C07 C08")
client("cancel_late", 3, "a future canceled by its owner after waiting for another",
       program=D.program("f", *SUB12, D.wait("t1"), D.cancel("t2"), D.cancel("t1"), D.submit("t3", "f"), D.wait("t3")), tasks={**T12, **D.task("t3", "f")},
       statuses=("Success", "Failed"), echoes=ALLE[:2], preempt=False, props="C08")
client("disconnect", 1, "the client is disconnected with a task at any stage",
       program=D.program("f", D.submit("t1", "f"), D.DISCONNECT, D.wait("t1")), tasks=D.tasks(("t1", "f")), statuses=("Success", "Failed"), echoes=ALLE[:2],
       props="C07")
client("disconnect2", 10, "the client is disconnected with two tasks at any stage",
       program=D.program("f", *SUB12, D.DISCONNECT, *WAIT12), tasks=T12, props="C07")
client("disconnect_late", 1, "a task is submitted while or after the client is disconnected",
       program=D.program("f", D.DISCONNECT, D.submit("t1", "f"), "if t1 is not None:", D.indent(D.wait("t1"))), tasks=D.tasks(("t1", "f")), props="C07")
client("disconnect_race", 1, "a task is submitted while the client is disconnected with another at any stage",
       program=D.program("f", D.submit("t1", "f"), D.DISCONNECT, D.submit("t2", "f"), D.wait("t1"), "if t2 is not None:", D.indent(D.wait("t2"))), tasks=T12, props="C07")
client("disconnect_mixed", 40, "a task and a graph, one future canceled, then the client is disconnected",
       program=D.program(("f", "fa", "fb"), D.submit("t1", "f"), D.get("g", GB, ["a", "b"], False), D.cancel('r["a"]'), D.DISCONNECT, D.wait("t1"),
                         D.wait("g/b", 'r["b"]')), tasks=D.tasks(("t1", "f")), graphs=D.graph("g", GB, ["a", "b"]), statuses=("Success", "Failed"), props="C07 C08")
client("graph", 1, "a graph, blocking, every outcome", program=D.program(FABC, D.get("g", GA, ["c", "a"])), graphs=D.graph("g", GA, ["c", "a"]),
       statuses=ALLST, bad_payload=True, preempt=False, props="C05")
client("graph_mixed", 1, "a graph with shared function, repeated and mixed arguments",
       program=D.program("f", D.get("g", GM, ["a", "c", "b", "a"], False), *[D.wait("g/" + k, f'r["{k}"]') for k in "abc"]),
       graphs=D.graph("g", GM, ["a", "b", "c"]), statuses=ALLST, preempt=False, props="C05")
client("graph_futures", 1, "a graph, not blocking, repeated keys, threads interleaved",
       program=D.program(FABC, D.get("g", GA, ["c", "a", "c"], False), D.wait("g/c", 'r["c"]'), D.wait("g/a", 'r["a"]')),
       graphs=D.graph("g", GA, ["c", "a"]), statuses=ALLST, props="C05")
client("graph_two", 1, "two graphs and a task", program=D.program(("f",) + FABC, D.get("g", GB, ["b"], False, "r"), D.submit("t1", "f"), D.get("h", GA, ["b", "c"], False, "s"),
                                                                  D.wait("t1"), D.wait("g/b", 'r["b"]'), D.wait("h/b", 's["b"]'), D.wait("h/c", 's["c"]')),
       tasks=D.tasks(("t1", "f")), graphs={**D.graph("g", GB, ["b"]), **D.graph("h", GA, ["b", "c"])}, statuses=("Success", "Failed"), preempt=False, props="C05")
LISTED = D.Raw('[fa, "x"]', lambda o: o == ("$list", ("$fn", "fa"), "x"))
GP = {"x": None, "b": ("fb", ("y", "a", "y")), "y": 0, "z": "", "a": ("fa", ()), "c": ("fc", ("x", "z", "t", "u", "w")), "t": (1, "a"), "u": (), "v": False,
      "w": LISTED}
client("graph_plain", 1, "a graph with data that counts as false, tuples as data, repeated arguments, nodes without arguments",
       program=D.program(FABC, D.get("g", GP, ["c", "a", "b"], False), D.wait("g/a", 'r["a"]'), D.wait("g/c", 'r["c"]'), D.wait("g/b", 'r["b"]')),
       graphs=D.graph("g", GP, ["c", "a", "b"]), statuses=("Success", "Failed"), preempt=False, props="C05 C06")
client("graph_again", 1, "the same graph computed twice", program=D.program(FABC, D.twice("g", "h", GB, ["b", "a", "b"]),
                                                                       *[D.wait(f"{l}/{k}", f'{v}["{k}"]') for l, v in ("gr", "hs") for k in "ab"]),
       graphs={**D.graph("g", GB, ["b", "a"]), **D.graph("h", GB, ["b", "a"])}, keys={"g": ["b", "a", "b"], "h": ["b", "a", "b"]}, preempt=False, props="C05 C06")
client("graph_late", 1, "a graph is submitted while or after the client is disconnected",
       program=D.program(FABC, D.DISCONNECT, D.get("g", GB, ["a"], False), "if r is not None:", D.indent(D.wait("g/a", 'r["a"]'))),
       graphs=D.graph("g", GB, ["a"]), props="C07")
client("graph_cancel", 1, "one future of a graph canceled by its owner",
       program=D.program(FABC, D.get("g", GB, ["a", "b"], False), D.cancel('r["a"]'), D.wait("g/b", 'r["b"]')), graphs=D.graph("g", GB, ["a", "b"]),
       statuses=ALLST, props="C08")
client("graph_disconnect", 1, "the client is disconnected with a graph at any stage",
       program=D.program(FABC, D.get("g", GB, ["a", "b"], False), D.DISCONNECT, "if r is not None:", D.indent(D.wait("g/b", 'r["b"]'))),
       graphs=D.graph("g", GB, ["a", "b"]), statuses=ALLST, props="C07")
client("graph_cancel_disconnect", 3, "one future of a graph canceled by its owner, then the client is disconnected",
       program=D.program(FABC, D.get("g", GB, ["a", "b"], False), "if r is not None:", D.indent(D.cancel('r["a"]')), D.DISCONNECT, "if r is not None:",
                         D.indent(D.wait("g/b", 'r["b"]'))), graphs=D.graph("g", GB, ["a", "b"]), statuses=ALLST, props="C07 C08")
client("disconnect_again", 3, "the client is disconnected again before and after its I/O thread has ended, and given up",
       program=D.program("f", D.submit("t1", "f"), D.DISCONNECT, D.wait("t1"), D.DISCONNECT, "c.__del__()"), tasks=D.tasks(("t1", "f")),
       statuses=("Success",), props="C07 P06")
client("alike", 1, "functions that cannot be told apart by their names",
       program=D.alike("fgh", D.get("g", GL, ["c", "a", "b"], False), *[D.wait("g/" + k, f'r["{k}"]') for k in "abc"], D.submit("t1", "f"), D.submit("t2", "g"),
                       D.submit("t3", "h"), *[D.wait(t) for t in ("t1", "t2", "t3")], D.mapped("m", "g", '[("m.0.0",)]')),
       tasks=D.tasks(("t1", "f"), ("t2", "g"), ("t3", "h"), ("m.0", "g")), graphs=D.graph("g", GL, ["a", "b", "c"]), preempt=False, props="C06")
client("alike_tasks", 1, "tasks of functions that cannot be told apart by their names",
       program=D.alike("fgh", D.submit("t1", "f"), D.submit("t2", "g"), D.wait("t1"), D.submit("t3", "h"), D.submit("t4", "f"), *[D.wait(t) for t in ("t2", "t3", "t4")]),
       tasks=D.tasks(("t1", "f"), ("t2", "g"), ("t3", "h"), ("t4", "f")), preempt=False, props="C01 C02")
client("graph_empty", 1, "graphs without computed nodes",
       program=D.program("f", D.get("g", {}, []), D.get("h", {"x": "dx"}, []), D.submit("t1", "f"), D.wait("t1")),
       graphs={"g": ({}, {}, ()), "h": ({}, {"x": "dx"}, ())}, tasks=D.tasks(("t1", "f")), preempt=False, props="C05 C06")
_bad = {
    "g": ({"a": ("fa", ("x",)), "x": "dx"}, ["x"]),                                                # a data node as key
    "h": ({"a": ("fa", ("y",))}, ["a"]),                                                           # unknown argument
    "i": ({"a": ("fa", ("b",)), "b": ("fb", ("a",))}, ["a"]),                                      # cycle
    "j": ({"a": ("fa", ("x",)), "x": "dx"}, ["a", "q"]),                                           # unknown key
    "k": ({"a": ("fa", ("a",))}, ["a"]),                                                           # self reference
    "l": ({"a": ("fa", ("x",)), "b": ("fb", ("c",)), "c": ("fc", ("d", "a")), "d": ("fa", ("b",)), "x": "dx"}, ["a"]),  # cycle beside the key
    "m": ({"a": ("fa", ("x",)), "b": ("fb", ("a", "y")), "x": "dx"}, ["a"]),                       # unknown argument of another node
}
client("graph_invalid", 1, "graphs that must be rejected, then a task and a valid graph",
       program=D.program(FABC, *[D.get(n, g, ks) for n, (g, ks) in _bad.items()], D.submit("t1", "fa"), D.wait("t1"), D.get("ok", GA, ["c"])),
       tasks=D.tasks(("t1", "fa")), graphs={**D.graph("ok", GA, ["c"]), **{k: v for n, (g, ks) in _bad.items() for k, v in D.graph(n, g, ks).items()}},
       rejected=tuple(_bad), preempt=False, props="C06")
client("map", 1, "map over a list, every outcome", program=D.program("f", D.mapped("m", "f", '[("m.0.0",), ["m.1.0"], ("m.2.0",)]')),
       tasks=D.tasks(("m.0", "f"), ("m.1", "f"), ("m.2", "f")), statuses=ALLST, echoes=ALLE, preempt=False, props="C03")
client("map_once", 1, "map over a generator, a tuple and an iterator",
       program=D.program("f", D.mapped("m", "f", '((a,) for a in ("m.0.0", "m.1.0"))'), D.mapped("n", "f", '(("n.0.0",),)'),
                         D.mapped("o", "f", 'iter([["o.0.0"], ("o.1.0",)])'), D.mapped("e", "f", "[]")),
       tasks=D.tasks(("m.0", "f"), ("m.1", "f"), ("n.0", "f"), ("o.0", "f"), ("o.1", "f")), preempt=False, props="C03")
client("map_plain", 1, "map over tuples without items, with several, and with values that count as false",
       program=D.program("f", D.mapped("m", "f", '[(), (None,), [0], ("",), ("m.4.0", None, False), ["m.5.0", "m.5.1"], (0,), (None,), [0]]'),
                         D.mapped("n", "f", '(x for x in [()])'), D.mapped("o", "f", '([], (0,))')),
       tasks={"m.0": ("f", ()), "m.1": ("f", (None,)), "m.2": ("f", (0,)), "m.3": ("f", ("",)), "m.4": ("f", ("m.4.0", None, False)),
              "m.5": ("f", ("m.5.0", "m.5.1")), "m.6": ("f", (0,)), "m.7": ("f", (None,)), "m.8": ("f", (0,)),
              "n.0": ("f", ()), "o.0": ("f", ()), "o.1": ("f", (0,))},
       ordered=True, preempt=False, props="C03")
client("map_threads", 9, "map over a generator, threads interleaved",
       program=D.program("f", D.mapped("m", "f", '((a,) for a in ("m.0.0", "m.1.0"))')), tasks=D.tasks(("m.0", "f"), ("m.1", "f")),
       statuses=("Success", "Failed"), props="C03")
client("map_invalid", 1, "map over iterables with an element that is not a tuple or list",
       program=D.program("f", D.mapped("m", "f", '[("m.0.0",), 5, ("m.1.0",)]'), D.mapped("n", "f", '(a for a in (("n.0.0",), "n.1.0"))'),
                         D.submit("t1", "f"), D.wait("t1")), tasks={**D.tasks(("m.0", "f"), ("m.1", "f"), ("n.0", "f"), ("n.1", "f")), **D.task("t1", "f")},
       rejected=("m", "n"), preempt=False, props="C03")
_args("arguments", 5, "every signature with up to two plain parameters", size=2)
_args("arguments3", 40, "every signature with up to three plain parameters", size=3)

HOWC = ("Abstract interpretation of the client's bytecode from Client(...), its I/O thread and the calling thread interleaved at every access to "
        "an object both can reach, against a scheduler that gives every conforming answer, up to the fixpoint; ")
CNOTE = "Sound for the driver programs listed in the evidence (all interleavings and replies); trusts the library models."
CALL = ["client." + n for n in ("two", "two_fg", "replies", "replies_fg", "replies_p")]
CDEEP = ["client." + n for n in ("three", "disconnect_mixed")]


def cprop(pid, what, quick, thorough=(), need=()):
    prop(pid, HOWC + what, ["client." + n for n in quick], ["client." + n for n in thorough] + CDEEP, need, technique=ai + ", thread interleaving", note=CNOTE)


cprop("C01", "every submitted task reaches the scheduler once, after its function, and from every state the calling thread's end stays reachable",
      ("two", "two_fg", "replies", "replies_fg", "replies_p", "alike", "alike_tasks"), need=("sent Task", "sent FunctionRequest", "future completed", "value seen"))
cprop("C02", "every completion of a future is compared with the outcome reported for its own task",
      ("two", "two_fg", "replies", "replies_fg", "replies_p", "alike_tasks"), need=("future completed", "error seen", "value seen"))
cprop("C03", "the transmitted tasks and the returned list are compared with the iterable",
      ("map", "map_once", "map_plain", "map_threads", "map_invalid", "alike"), need=("map returned", "call raised", "sent Task"))
cprop("C04", "for every signature and call the transmitted arguments are bound as the worker does and compared with the local call",
      ("arguments",), ("arguments3",), need=("arguments compared", "call raised"))
cprop("C05", "values and failures of the returned mapping are compared with the outcome of the node of each key",
      ("graph", "graph_mixed", "graph_futures", "graph_two", "graph_empty", "graph_plain", "graph_again"), need=("graph compared", "sent GraphTask", "graph value", "future completed", "error seen"))
cprop("C06", "a transmitted graph is matched with the given one (functions, data, references); rejected ones transmit and leave nothing",
      ("graph_invalid", "graph", "graph_mixed", "graph_two", "graph_empty", "graph_plain", "graph_again", "alike"), need=("call raised", "sent GraphTask"))
cprop("C07", "at the end of the I/O thread every outstanding task and graph was cancelled at the scheduler, every future completed, the socket closed",
      ("disconnect", "disconnect2", "disconnect_late", "graph_disconnect", "cancel_disconnect", "graph_cancel_disconnect",
       "disconnect_again", "graph_late", "disconnect_race"), need=("I/O thread ended", "sent TaskCancel", "sent GraphTaskCancel"))
cprop("C08", "a future canceled by its owner at any point never ends the I/O thread, stays canceled and leaves the others to be completed",
      ("cancel", "cancel_disconnect", "cancel_late", "graph_cancel", "graph_cancel_disconnect"), need=("future canceled", "future completed"))


# ------------------------------------------------------------------------------------------------ containers
cont = world_unit("containers", "containers", "build")
cont("indexed", 1, "indexed queue, three items", kind="indexed", items=3)
cont("indexed4", 1, "indexed queue, four items", kind="indexed", items=4)
cont("indexed_equal", 1, "indexed queue, items with equal hashes", kind="indexed", items=3, equal_hashes=True)
cont("priority", 2, "priority queue, three items", kind="priority", items=3)
cont("priority4", 12, "priority queue, four items", kind="priority", items=4)
cont("priority_negative", 2, "priority queue, negative priorities", kind="priority", items=3, low=-1, priorities=(-1, 0, 1))
cont("one_to_many", 1, "one-to-many dictionary", kind="one_to_many")
cont("key_value", 1, "key-to-set dictionary", kind="key_value")
addr = world_unit("containers", "address", "AddressWorld")
addr("address", 1, "address strings by scheme, separator, colons and kind of port; constructor arguments of every kind")

nums = world_unit("containers", "numbers", "NumbersWorld")
nums("numbers", 1, "every public formatter with an arbitrary non-negative number")

HOWU = ("Abstract interpretation of the container's bytecode over every sequence of operations on a few arbitrary items up to the fixpoint of the "
        "abstract states, compared after each operation with an abstract value; ")
UNOTE = "Sound for the number of distinct items listed in the evidence (any number of operations); trusts the library models."


def uprop(pid, what, quick, thorough=(), need=(), how=HOWU, note=UNOTE):
    prop(pid, how + what, ["containers." + n for n in quick], ["containers." + n for n in thorough], need,
         technique="abstract interpretation of the bytecode over all operation sequences, compared with an abstract data type", note=note)


uprop("U01", "a sequence of distinct items", ("indexed", "indexed_equal"), ("indexed4",), need=("operation get_nowait", "operation remove", "operation put_nowait"))
uprop("U02", "a finite map from items to priorities, together with the heap and index invariants", ("priority", "priority_negative"), ("priority4",),
      need=("operation put_nowait", "operation remove", "operation get_nowait"))
uprop("U03", "a relation", ("one_to_many", "key_value"), need=("operation add", "operation remove_value"))
uprop("U04", "each kind of string is a template over arbitrary texts without separators and arbitrary ports", ("address",),
      need=("address parsed", "address formatted", "address refused", "configuration built"),
      how="Abstract interpretation of the parser's and formatter's bytecode over templates of addresses; ", note="Sound for the templates enumerated in sa/worlds/address.py; trusts the string models.")
uprop("K05", "an arbitrary non-negative number, split by the comparisons the function makes; the text is read back as multiple of the number", ("numbers",),
      need=("format_bytes", "format_microseconds", "format_percentage", "format_integer", "format_seconds"),
      how="Abstract interpretation of the formatters' bytecode over ", note="Numbers are taken as real numbers: rounding of floating point division is put aside, as is the rounding to the digits shown.")

# ------------------------------------------------------------------------------------------------ protocol
proto = world_unit("protocol", "protocol", "ProtocolWorld")
proto("round_trip", 1, "every message with lists of up to three parts", sizes=(0, 1, 2, 3))
proto("round_trip4", 2, "every message with lists of up to four parts", sizes=(0, 1, 2, 3, 4))
proto("large", 2, "every message with lists of 300 parts", sizes=(), large=(300,))
proto("huge", 20, "every message with lists of 66000 parts", sizes=(), large=(66000,))


@unit("protocol.registry", 1, "the tables of message types, codecs and enumerations")
def _registry(pid, r, seconds, known):
    from .explore import Alarm
    from .worlds import protocol

    vm = load()
    alarms, checks = [], {}

    def alarm(rule, construct, text):
        alarms.append(Alarm(pid + "/" + rule, construct, text, (), None))

    def count(n):
        checks[n] = checks.get(n, 0) + 1

    protocol.registry(vm, alarm, count)
    r["states"], r["transitions"], r["complete"], r["cuts"] = 1, sum(checks.values()), True, 0
    r["checks"] = checks
    report(r, vm, alarms)


trans = world_unit("transport", "transport", "TransportWorld")
for _t in ("binder", "connector", "acceptor", "publisher", "sync", "sync_bind"):
    if _t != "publisher":
        trans("receive_" + _t, 1, "arbitrary frames arrive", transport=_t, mode="receive")
    trans("send_" + _t, 1, "every message is sent", transport=_t, mode="send")
trans("immediate", 1, "every message is sent without the connector's thread", transport="sync", mode="immediate")
trans("burst", 12, "more than a thousand messages are queued before the connector's thread runs", transport="sync", mode="send", messages=1200)
trans("send_sync_threads", 2, "every message is sent, threads interleaved", transport="sync", mode="send", preempt=True)
trans("send_sync_threads3", 5, "three messages are sent, threads interleaved", transport="sync", mode="send", preempt=True, messages=3)

trans("count", 6, "every kind of incoming message and every message sent, then another one; the counters are read in between or at the end", mode="count")
trans("count_many", 12, "every kind of incoming message and every message sent, repeated 2 and 300 times", mode="count", operations=1)
trans("count3", 30, "three operations", mode="count", operations=3)

PNOTE = "Sound for all field contents (each field an arbitrary symbol); list lengths as listed in the evidence; trusts the library models."
prop("P01", "Abstract interpretation of every codec's bytecode: a message with arbitrary distinct symbolic fields and every combination of list lengths is "
     "encoded, every frame must be bytes, and decoding must give back the same symbols",
     ["protocol.round_trip", "protocol.large", "protocol.huge"], ["protocol.round_trip4"], need=("encoded", "decoded"), technique=
     "abstract interpretation of encoder and decoder over symbolic fields", note=PNOTE)
prop("P02", "The tables built by interpreting the protocol module are read and compared: types, codecs, tags and enumerations; and every message the "
     "program builds is registered", ["protocol.registry"], need=("message types", "enumeration members", "constructions of messages"), technique="interpretation of the module's tables and query over the syntax tree",
     note="Decides the tables as they are after import.")
prop("P04", "Abstract interpretation of each transport's receive loop: every shape of incoming multipart message, alone and next to a good one, in every "
     "reachable state", ["transport.receive_" + t for t in ("binder", "connector", "acceptor", "sync", "sync_bind")],
     need=("message delivered",), technique=ai, note="Sound for the kinds of frames in sa/worlds/transport.py; trusts the library models.")
prop("P05", "Abstract interpretation of each transport's send operations with every message: the frames at the socket are compared with receiver, tag and "
     "content of what was queued, in order; socket options at bind and connect",
     ["transport.send_" + t for t in ("binder", "connector", "acceptor", "publisher", "sync", "sync_bind", "sync_threads")] + ["transport.immediate", "transport.burst"],
     ["transport.send_sync_threads3"], need=("message sent", "identity compared", "socket bind", "socket connect"), technique=ai + ", thread interleaving",
     note="Sound for up to three queued messages of every type; trusts the library models.")
prop("P07", "Abstract interpretation of the binder's receive and send operations, each followed by others and repeated: the reported counters are compared "
     "with the well-formed messages that arrived and the messages sent", ["transport.count", "transport.count_many", "sched.report_queue"], ["transport.count3"],
     need=("counters reported", "counters compared", "message sent", "message delivered"), technique=ai, note="Sound for the sequences of operations enumerated; trusts the library models.")
prop("P06", "Effect analysis of threads: in every reachable state of the client and processor analyses each operation on a socket is attributed to the thread "
     "that executes it, which must be the connector's own",
     ["transport.send_sync_threads", "transport.receive_sync", "client.two", "client.disconnect", "client.disconnect_again", "client.graph_disconnect",
      "client.map_threads", "processor.failures", "processor.cleaner"],
     ["client.replies_p", "client.cancel", "client.disconnect2", "processor.cleaner2", "client.disconnect_mixed"],
     need=("socket used", "socket used by a thread"), technique=ai + ", thread attribution of every socket operation", note=CNOTE)

prop("P03", "The analyses of scheduler, worker, processor and client deliver every message their peers can send in every reachable state of the scenarios; "
     "each received message owes the effect its handler must have, towards the sender it came from; to the scheduler also every declared type nobody "
     "sends to it, from clients, workers and strangers",
     ["sched." + n for n in ("basic", "function", "balance_lost", "graph_ab", "graph_cancel", "junk")]
     + ["worker." + n for n in ("one", "two", "balance", "heart")] + ["processor.failures", "client.replies", "client.graph", "client.graph_futures"],
     ["sched." + n for n in ("unknown", "two2", "foreign", "graph_fail", "retention")] + ["worker." + n for n in ("missing", "burst", "heart_burst")]
     + ["processor.cleaner", "client.replies_p", "client.two_fg", "client.disconnect"],
     need=("received Task", "received FunctionRequest", "received Heartbeat", "received BalanceResponse", "received GraphTask", "received GraphTaskCancel",
           "received TaskCancel", "received TaskResult", "received DisconnectRequest", "scheduler: Task", "scheduler: TaskCancel", "scheduler: BalanceRequest",
           "scheduler: FunctionRequest", "scheduler: FunctionResponse", "scheduler: HeartbeatEcho", "processor: TaskResult", "processor: FunctionRequest"),
     technique=ai, note=NOTE)

prop("K03", "Abstract interpretation of the scheduler with the monitor program's main function run on every status report it publishes: the report must be "
     "representable as JSON, and the display must get through every report with every key pressed, each comparison of its numbers decided both ways",
     ["sched.display", "sched.display_graph"], ["sched.display_waiting", "sched.status"], need=("report shown", "time-out", "published SchedulerState", "obligation report"), technique=ai,
     note="Sound for the shapes of reports reachable in the scenarios listed; magnitudes of numbers are not distinguished (K05 decides the formatters).")

sched("display_figures", 1, "status reports with the figures of heartbeats shown by the monitor", tasks=T1, workers=W2, status=True, report=True, beats=True, display=True, functions=True, cancels=0)
prop("K04", "Abstract interpretation of the scheduler with the monitor program's main function run on every status report it publishes; what it draws is "
     "compared with the report: every named value next to its name, every figure of a worker in one row of its own under the heading of its name, in a unit of its kind",
     ["sched.display", "sched.display_graph", "sched.display_figures"], ["sched.display_waiting"], need=("screen compared", "worker row compared", "sort order compared"), technique=ai,
     note="Sound for the shapes of reports reachable in the scenarios listed; each comparison of the display is decided both ways, one at a time.")


# ------------------------------------------------------------------------------------------------ configuration and operation
for _s in ("cli", "combo"):
    _how = {"cli": "started by its command line program", "combo": "started by the combined object"}[_s]
    optioned("options.capacity_" + _s, "sched", "SchedWorld", 1, "scheduler " + _how + ", queue size and waiting limit", tasks={**T3, "t4": "c1"}, workers=W1,
             mortal=(), cancels=0, waiting=1, queue_size=2, start=_s)
    optioned("options.time_" + _s, "sched", "SchedWorld", 5, "scheduler " + _how + ", timeouts and retention", tasks=T1, workers=W1, mortal=(), cancels=0,
             timeouts=True, silent=True, functions=True, ftimer=True, start=_s)
    optioned("options.balance_" + _s, "sched", "SchedWorld", 18, "scheduler " + _how + ", rebalancing", tasks=T2, workers=W2, mortal=(), cancels=0, balance=True,
             queue_size=2, disconnect=False, start=_s)
    _how = {"cli": "started by the cluster program", "combo": "started by the combined object"}[_s]
    for _n, _w in ((3, 0), (3, 2), (1, 0)):
        optioned(f"options.worker_{_s}_{_n}{_w}", "worker", "WorkerWorld", 2, f"worker {_w + 1} of {_n} " + _how, tasks=("t1",), heartbeat=True, timeout=True,
                 start=_s, n_workers=_n, which=_w)
    for _n in (2, 33):
        optioned(f"options.launch_{_s}_{_n}", "cluster", "LaunchWorld", 1, f"{_n} workers " + _how, start=_s, n_workers=_n)
    optioned("options.processor_" + _s, "processor", "ProcessorWorld", 15, "processor of a worker " + _how, repeat=2, delete=True, start=_s)
    optioned("options.processor1_" + _s, "processor", "ProcessorWorld", 5, "processor of the only worker " + _how, repeat=2, start=_s, n_workers=1)

prop("K01", "Abstract interpretation of the program from its real entry points (command line programs, combined object) with a value of its own for every "
     "option; each component is then explored as for the other properties, and its behaviour must be the one its own options ask for",
     ["options." + n + s for s in ("_cli", "_combo") for n in ("capacity", "time", "balance", "processor", "processor1")]
     + ["options.worker" + s + n for s in ("_cli", "_combo") for n in ("_30", "_32", "_10")]
     + ["options.launch" + s + n for s in ("_cli", "_combo") for n in ("_2", "_33")],
     need=("option address", "option io_threads", "option event_loop", "option load_balance", "option heartbeat interval", "option number of workers",
           "option serializer", "option garbage_collect_interval_seconds", "option trim_memory_threshold_bytes", "option function_retention_seconds"),
     technique=ai, note=NOTE)

worker("only", 3, "the only worker of a cluster, signals", tasks=("t1",), heartbeat=True, sigint=True, start="cli", n_workers=1)
worker("only_combo", 3, "the only worker of the combined object's cluster, signals", tasks=("t1",), heartbeat=True, sigint=True, start="combo", n_workers=1)
sched("signals", 1, "signals to the scheduler program", tasks=T1, workers=W2, start="cli", signals=True)
sched("signals_graph", 5, "signals to the scheduler program while a graph runs", tasks={}, workers=W2, graphs=AB, start="cli", signals=True)
clu = world_unit("cluster", "cluster", "ClusterWorld")
clu("program", 1, "the cluster program, signals, workers end at any time", start="cli", n_workers=3)
clu("two", 1, "the cluster program, signals, workers end at any time", start="cli", n_workers=2)
clu("combo", 1, "the combined object's cluster, signals, workers end at any time", start="combo", n_workers=3)
world_unit("cluster", "cluster", "ComboWorld")("shutdown", 1, "the combined object is shut down", start="combo")
prop("K02", "Abstract interpretation of combined object, cluster and stand-alone scheduler: in every reachable state each signal is delivered; each process that "
     "was started must be signalled in a way it handles, each loop must end and each socket be closed",
     ["cluster.program", "cluster.two", "cluster.combo", "cluster.shutdown", "worker.only", "worker.only_combo", "worker.heart", "sched.signals", "sched.signals_graph"],
     need=("worker signalled", "SIGINT", "SIGTERM", "signal SIGINT", "signal SIGTERM", "signal 2", "signal 15", "process stopped"), technique=ai, note=NOTE)
