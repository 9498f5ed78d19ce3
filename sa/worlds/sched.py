"""Environment of the scheduler: clients and workers as protocol automata, typestate monitors at its sockets.

The monitors are a message-level automaton of what the scheduler owes after each message it receives: obligations
(`exp`) created by a received message have to be discharged by the time the reaction ends, and every message sent has to
be allowed by the automaton.  Task dispatch is the scheduler's free choice within the rules (capacity, least load,
one worker at a time, dependencies done).
"""
from __future__ import annotations

import itertools
import math
from fractions import Fraction

from .base import *  # noqa: F401,F403
from . import options, report
from ..libmods import start_strand
from .base import BaseWorld, Messages, construct_of, exc_text, load, short, site_text

FN = ID("function", "f1")
FN2 = ID("function", "f2")
TIMEOUT = "+worker_timeout"
RETENTION = "+retention"
INTERVAL = "+load_balance_seconds"
TRIGGER = "load_balance_trigger_times"


class Graph:
    """nodes: name -> list of arguments, an argument is the name of a node or a constant"""

    def __init__(self, name, nodes, targets, client="c1"):
        self.name, self.nodes, self.targets, self.client = name, nodes, targets, client

    def deps(self, n):
        return {a for a in self.nodes[n] if a in self.nodes}


class Cfg:
    tasks = {"t1": "c1", "t2": "c1"}
    workers = ("w1", "w2")
    mortal = ("w1",)           # workers that may go away for ever
    function_of = {}
    queue_size = 1
    waiting = -1
    cancels = 1                # cancels the client sends per task
    unknown_cancel = False     # cancels of unknown ids
    balance = False
    disconnect = True
    silent = False             # workers may die without a word
    timeouts = False
    foreign_disconnect = False
    failing = False
    stray = False              # workers hand back other work, too
    duplicates = False         # workers repeat results
    preregister = True
    functions = False          # function requests as stimuli
    ftimer = False
    status = False
    graphs = ()
    gcancels = 1
    burst = False
    trigger = 2
    report = False             # every status report is compared with the state of the scheduler
    counts = False             # with its counters of ended tasks
    beats = False              # workers send heartbeats with different figures
    same_names = False         # all functions have the same name
    display = False            # every status report is shown by the monitor program
    junk = False               # messages of kinds nobody sends to a scheduler
    ef = True
    start = "direct"           # how the scheduler is started: direct, cli (its command line program), combo (the combined object)
    signals = False            # it is told to stop

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)

    def __repr__(self):
        d = []
        for k, v in sorted(self.__dict__.items()):
            d.append(f"{k}={[g.name + str(g.nodes) for g in v] if k == 'graphs' else v}")
        return " ".join(d)


def tid(t):
    return ID("task", t)


def cid(c):
    return ID("client", c)


def wid(w):
    return ID("worker", w)


# what clients and workers send to a scheduler, and of these what may arrive with ids of unknown work
EXPECTED = {"Heartbeat", "BalanceResponse", "GraphTask", "GraphTaskCancel", "Task", "TaskCancel", "TaskResult", "FunctionRequest", "DisconnectRequest"}
UNKNOWN_IDS = {"BalanceResponse", "GraphTaskCancel", "TaskCancel", "TaskResult", "DisconnectRequest"}
CONFLICT = "S06 S03 S04 S11"


class SchedWorld(BaseWorld):
    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        if isinstance(cfg.graphs, dict):
            cfg.graphs = (Graph("g1", cfg.graphs["nodes"], cfg.graphs["targets"], "c1"),)
        self.names = {}
        self.view = None
        self.shown = set()
        if cfg.start != "direct":
            self.on_known = self.option_used
        if cfg.display or cfg.counts:
            self.forget_counters = False
        self.int_cap = max([3] + [len(g.nodes) + 1 for g in cfg.graphs])
        self.node = {n: g for g in cfg.graphs for n in g.nodes}
        self.graph = {g.name: g for g in cfg.graphs}
        self.all = list(cfg.tasks) + list(self.node)
        self.cli = {**cfg.tasks, **{n: g.client for n, g in self.node.items()}, **{g.name: g.client for g in cfg.graphs}}

    def name(self, v):
        return self.names.get(v) or describe(v)

    # ------------------------------------------------------------------ set-up
    def prepare(self, vm):
        c = self.cfg
        M = self.M = Messages(vm)
        for t in self.all:
            self.names[tid(t)] = t
        for g in c.graphs:
            self.names[tid(g.name)] = g.name
        for w in c.workers:
            self.names[wid(w)] = w
        self.clients = sorted(set(self.cli.values()) | {"c1"})
        for x in self.clients:
            self.names[cid(x)] = x
        AT = M.ArgumentType
        ns = M.ns
        self.fr = {}
        TS = ns["TaskStatus"].members
        FT = ns["FunctionRequestType"].members

        def arg(kind, data):
            return vm.call(ns["Argument"], (AT.members[kind], data))

        self.args = {}
        for t in c.tasks:
            self.args[t] = (("Data", ID("arg", f"{t}.0")), ("Data", ID("arg", f"{t}.1")))
            self.fr["task", t] = M.make("Task", tid(t), self.fn(t), vm.list([arg(*a) for a in self.args[t]]))
            self.fr["cancel", t] = M.make("TaskCancel", tid(t))
        self.fr["cancel", "?"] = M.make("TaskCancel", ID("task", "unknown"))
        self.fr["gcancel", "?"] = M.make("GraphTaskCancel", ID("task", "unknowngraph"))
        for g in c.graphs:
            nodes = []
            for n, aa in g.nodes.items():
                self.args[n] = tuple(("Task", tid(a)) if a in g.nodes else ("Data", ID("arg", f"{n}.{a}")) for a in aa)
                nodes.append(vm.call(ns["Task"], (tid(n), self.fn(n), vm.list([arg(*a) for a in self.args[n]]))))
            fs = {}
            for n in g.nodes:
                f = self.fn(n)
                fs[f] = (self.fname(f), ID("content", f.a[1]))
            self.fr["graph", g.name] = M.make("GraphTask", tid(g.name), vm.dict(fs), vm.list([tid(x) for x in g.targets]),
                                              vm.list(nodes))
            self.fr["gcancel", g.name] = M.make("GraphTaskCancel", tid(g.name))
        for t in self.all:
            for w in c.workers:
                for s in ("Success", "Failed", "Canceled", "NotFound"):
                    self.fr["result", w, t, s] = M.make("TaskResult", tid(t), TS[s], ATOM(f"duration.{w}.{t}", "float"),
                                                        self.payload(w, t, s))
        for w in c.workers:
            for i in (0, 1):
                self.fr["hb", w, i] = M.make("Heartbeat", *(report.figure(n, w, i) for n in (
                    "agent_cpu", "agent_rss", "cpu", "rss", "queued", "latency", "initialized", "has_task", "task_lock")))
            self.fr["disc", w] = M.make("DisconnectRequest", wid(w))
            for n in range(0, 3):
                for sub in itertools.permutations(self.all, n):
                    self.fr["back", w, sub] = M.make("BalanceResponse", vm.list([tid(t) for t in sub]))
            if c.stray:
                for t in self.all:
                    self.fr["back", w, (t, t)] = M.make("BalanceResponse", vm.list([tid(t), tid(t)]))
        if c.junk:
            from . import protocol

            self.strange = []
            vs = vm.subscr
            for tag in dict.fromkeys(ns["MessageType"].members.values()):
                cls = vs(ns["PROTOCOL"], tag)
                if cls.name in EXPECTED - UNKNOWN_IDS:
                    continue
                for n in (0, 2):
                    t = ("obj", cls)
                    m = protocol.Builder(vm, {d: n for d in protocol.dims(vm, t)}, "distinct", {}).build(t, (), "junk")
                    self.fr["junk", cls.name, n] = M.frames_of(m)
                    self.strange.append(("junk", cls.name, n))
        for f in (FN, FN2):
            for k in ("Check", "Add", "Request", "Delete"):
                self.fr["func", k, f] = M.make("FunctionRequest", FT[k], f, self.fname(f) if k == "Add" else b"",
                                               ID("content", f.a[1]) if k == "Add" else b"")

    def fn(self, t):
        f = self.cfg.function_of.get(t, FN)
        return ID("function", f) if type(f) is str else f

    def fname(self, f):
        return ID("fname", "same" if self.cfg.same_names else f.a[1])

    @staticmethod
    def payload(w, t, s):
        return ID("payload", f"{w}.{t}.{s}") if s in ("Success", "Failed") else b""

    def config(self, vm):
        c = self.cfg
        zc = vm.import_module("scaled.utility.zmq_config").ns
        addr = vm.call(zc["ZMQConfig"], (zc["ZMQType"].members["tcp"],), {"host": "127.0.0.1", "port": 2345})
        return dict(address=addr, io_threads=1, max_number_of_tasks_waiting=c.waiting, per_worker_queue_size=c.queue_size,
                    worker_timeout_seconds=ATOM(TIMEOUT, "int"), function_retention_seconds=ATOM(RETENTION, "int"),
                    load_balance_seconds=1 if c.balance else 0, load_balance_trigger_times=c.trigger or ATOM("load_balance_trigger_times", "int"))

    def setup(self, vm):
        mon = vm.st.mon
        c = self.cfg
        mon["st"] = {t: "new" for t in self.all}
        mon["why"] = {}
        mon["can"] = {t: 0 for t in list(c.tasks) + list(self.graph)}
        mon["gr"] = {g: "new" for g in self.graph}
        mon["held"] = frozenset()
        mon["pend"] = ()
        mon["bal"] = ()
        mon["up"] = frozenset()
        mon["gone"] = frozenset()
        mon["exp"] = ()
        mon["opt"] = ()
        mon["reported"] = frozenset()
        mon["pl"] = {}
        mon["sock"] = None
        mon["cur"] = None
        mon["rclk"] = frozenset()
        mon["beat"] = {}
        mon["lastbeat"] = {}
        mon["nextbeat"] = {}
        mon["ends"] = {}
        mon["alive"] = {}
        mon["rclk"] = frozenset()
        mon["fn"] = {}
        mon["end"] = frozenset()
        if c.balance and c.trigger:
            mon["advice"], mon["round"] = ((), 0), False
        if c.start == "direct":
            m = vm.import_module("scaled.scheduler.main")
            coro = vm.call(vm.getattr(m, "scheduler_main"), (), self.config(vm))
            vm.call(vm.import_module("asyncio").ns["Task"], (coro,))
            self.run(vm)
        else:
            self.launch(vm)
        if c.preregister:
            self.deliver(vm, cid("c1"), self.fr["func", "Add", FN])
            self.run(vm)
        self.check(vm)

    def options(self):
        """what the user asks for"""
        c = self.cfg
        v = {"io_threads": options.IO_THREADS, "max_number_of_tasks_waiting": c.waiting, "worker_timeout_seconds": ATOM(TIMEOUT, "int"),
             "function_retention_seconds": ATOM(RETENTION, "int"), "load_balance_seconds": ATOM(INTERVAL, "int") if c.balance else 0,
             "load_balance_trigger_times": ATOM(TRIGGER, "int"), "per_worker_queue_size": c.queue_size, "event_loop": options.LOOP, "address": options.ADDRESS}
        if c.start == "combo":
            n = lambda x: ATOM("other " + x, "int")  # noqa: E731
            return {**v, "n_workers": 3, "heartbeat_interval_seconds": n("heartbeat"), "death_timeout_seconds": n("death timeout"),
                    "garbage_collect_interval_seconds": n("collect"), "trim_memory_threshold_bytes": n("trim")}
        return {k.replace("_", "-") if k != "address" else k: x for k, x in v.items()}

    def launch(self, vm):
        mon = vm.st.mon
        c = self.cfg
        mon["started"] = ()
        mon["loop"] = False
        mon["inuse"] = False       # the rebalancing interval has been used
        mon["trig"] = False
        mon["signals"] = {}
        mon["socks"] = ()
        self.given = self.options()
        if c.start == "cli":
            fn = vm.getattr(vm.import_module("scaled.entry_points.scheduler"), "main")
        else:
            options.combination(vm, self.given)
            ps = [p for p in mon["started"] if options.is_a(vm, p, "scaled.cluster.scheduler", "SchedulerProcess")]
            if len(ps) != 1:
                self.alarm("K01", "scheduler", "SchedulerClusterCombo", f"the combined object starts {len(ps)} schedulers")
                self.stop()
            fn = vm.getattr(ps[0], "run")
        del mon["started"]
        s = vm.spawn("main", None)
        start_strand(vm, s, fn)
        self.run(vm)
        mon = vm.st.mon
        if mon["sock"] is None:
            e = next((s.error for s in vm.st.strands if s.name == "main" and s.status == "dead"), None)
            if e is not None:
                self.alarm("K01", "start", construct_of(e.tb, "main"), f"the scheduler fails with {exc_text(e)} when it is started: {site_text(e.tb)}", e.tb)
                self.stop()
            raise AnalysisError("the scheduler has not bound a routing socket")
        if not mon["loop"]:
            self.alarm("K01", "event-loop", "event_loop", f"the event loop asked for ({options.LOOP}) is not used by the scheduler")
        self.checked("option event_loop")

    def option_event(self, vm, kind, obj, args):
        mon = vm.st.mon
        if kind == "socket":
            mon["socks"] += (obj,)
        elif kind == "process_start":
            mon["started"] += (obj,)
            return ID("pid", f"p{len(mon['started'])}")
        if kind == "event_loop":
            mon["loop"] = obj == options.LOOP
        elif kind == "bind" and obj.f.get("socket_type") == 6:
            if args[0] != options.ADDRESS:
                self.bad("K01", "address", f"the scheduler listens at {describe(args[0])} instead of {options.ADDRESS}")
            n = obj.f["context"].f["io_threads"]
            if n != options.IO_THREADS:
                self.bad("K01", "io-threads", f"the scheduler uses {describe(n)} I/O threads instead of {options.IO_THREADS}")
            self.checked("option address")
            self.checked("option io_threads")
        elif kind == "sleep":
            if args[0] == ATOM(INTERVAL, "int"):
                mon["inuse"] = True
        elif kind == "add_signal_handler":
            mon["signals"] = {**mon["signals"], getattr(args[0], "value", args[0]): (args[1], tuple(args[2]))}
        elif kind == "signal":
            sig = getattr(obj, "value", obj)
            mon["signals"] = {**mon["signals"], sig: (args[0], (sig, None))}
        return None

    def signal(self, sig):
        """a signal arrives; the scheduler has to end its loops and close its sockets"""
        what = {2: "SIGINT", 15: "SIGTERM"}[sig]

        def act(vm):
            mon = vm.st.mon
            mon["ending"] = what
            self.checked("signal " + what)
            h = mon["signals"].get(sig)
            if h is None:
                self.alarm("K02", "unhandled", what, f"{what} ends the scheduler without any clean-up")
                self.stop()
            try:
                vm.call(*h)
            except GuestError as e:
                self.alarm("K02", "handler", construct_of(e.obj.tb, "handler") + " " + e.obj.cls.name, f"{exc_text(e.obj)} escapes from the handler of {what}: {site_text(e.obj.tb)}",
                           e.obj.tb)
                self.stop()
            self.run(vm)
            s = next(s for s in vm.st.strands if s.name == "main")
            if s.status != "done":
                self.explorer.alarm_end(self, "K02", "goes-on", what, f"the scheduler goes on after {what}")
            for k in mon["socks"]:
                if not k.f["closed"] and not k.f["context"].f["closed"]:
                    self.explorer.alarm_end(self, "K02", "socket", "routing" if k is mon["sock"] else "monitor", f"the scheduler ends after {what} without closing its socket "
                                            f"{'for clients and workers' if k is mon['sock'] else 'for monitors'}")
            self.stop()

        return act

    # ------------------------------------------------------------------ boundary
    def emit(self, vm, kind, obj, args):
        if self.cfg.start != "direct" and kind in ("process_start", "event_loop", "bind", "sleep", "socket", "signal", "add_signal_handler"):
            r = self.option_event(vm, kind, obj, args)
            if r is not None:
                return r
        if self.view is not None:
            return self.view.emit(vm, kind, obj, args)
        mon = vm.st.mon
        if kind == "send":
            t = obj.f.get("socket_type")
            frames = tuple(args[0].x)
            if t == 6:
                return self.on_send(vm, frames[0], frames[1:])
            return self.on_monitor(vm, frames)
        if kind == "recv":
            frames = tuple(args[0].x)
            mon["cur"] = frames
            self.on_recv(vm, frames[0], frames[1:])
        if kind == "bind":
            if obj.f.get("socket_type") == 6:
                mon["sock"] = obj
        return None

    def deliver(self, vm, source, frames):
        s = vm.st.mon["sock"]
        if s is None:
            raise AnalysisError("the scheduler has not bound a routing socket")
        s.f["inbox"].x.append(vm.list((source,) + tuple(frames)))
        vm.notify(s)

    def here(self):
        s = self.explorer.site()
        return construct_of(s), site_text(s)

    def bad(self, props, rule, text):
        fn, at = self.here()
        for p in props.split():
            self.alarm(p, rule, fn, f"{text} at {at}")

    def alarm_report(self, what, text):
        fn, at = self.here()
        self.alarm("S12", "report", what, f"{text} at {at}")

    def alarm_binder(self, way, text):
        fn, at = self.here()
        self.alarm("P07", "report", way, f"{text} at {at}")

    # ------------------------------------------------------------------ obligations
    def expect(self, vm, props, *what):
        self.checked("obligation " + what[0])
        vm.st.mon["exp"] += ((props,) + what,)

    def allow(self, vm, *what):
        if what not in vm.st.mon["opt"]:
            vm.st.mon["opt"] += (what,)

    def discharge(self, vm, *what):
        """True when this output was owed or allowed"""
        mon = vm.st.mon
        for i, e in enumerate(mon["exp"]):
            if e[1:] == what:
                mon["exp"] = mon["exp"][:i] + mon["exp"][i + 1:]
                return True
        for i, e in enumerate(mon["opt"]):
            if e == what:
                mon["opt"] = mon["opt"][:i] + mon["opt"][i + 1:]
                return True
        return False

    # ------------------------------------------------------------------ what the scheduler receives
    def on_recv(self, vm, src, frames):
        m = self.M.read(frames)
        if m is None:
            return
        h = getattr(self, "in_" + m.cls.name, None)
        if h is not None:
            self.checked("received " + m.cls.name)
            h(vm, src, m)

    def count(self, vm, w, but=None):
        return sum(1 for t, s in vm.st.mon["st"].items() if s == "@" + w and t != but)

    def advice(self, vm):
        """the surplus of each overloaded worker while another is idle"""
        loads = {w: self.count(vm, w) for w in sorted(vm.st.mon["up"])}
        if not loads or not any(loads.values()) or all(loads.values()):
            return ()
        mean = Fraction(sum(loads.values()), len(loads))
        return tuple((w, math.ceil(n - mean)) for w, n in loads.items() if n > mean)

    def round(self, i):
        """the worker manager's periodic duty"""
        def act(vm):
            mon = vm.st.mon
            advice = self.advice(vm)
            last, times = mon["advice"]
            times = min(times + 1, self.cfg.trigger + 1) if advice == last else 1
            mon["advice"] = (advice, times)
            if times == self.cfg.trigger:
                for w, _ in advice:
                    self.expect(vm, "S13", "balance", w)
            mon["round"] = True
            vm.wake(vm.st.strands[i])
            self.run(vm)
            vm.st.mon["round"] = False

        return act

    def free(self, vm):
        mon = vm.st.mon
        return [w for w in sorted(mon["up"]) if self.count(vm, w) < self.cfg.queue_size]

    def queued(self, vm):
        return [t for t, s in vm.st.mon["st"].items() if s == "queued"]

    def stream(self, vm, t, status):
        f = self.fn(t)
        self.expect(vm, "S10", "stream", t, status, self.fname(f))

    def enqueue(self, vm, t, why):
        mon = vm.st.mon
        mon["st"][t] = "queued"
        mon["why"][t] = why
        self.stream(vm, t, "Inactive")

    def in_Task(self, vm, src, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        if t not in self.cfg.tasks or mon["st"][t] != "sent":
            return
        known = mon["fn"].get(self.fn(t), "no")
        echo = []
        if known != "yes":
            echo.append("FunctionNotExists")
        if known != "no":
            if not self.free(vm) and 0 <= self.cfg.waiting <= len(self.queued(vm)):
                echo.append("NoWorker")
            else:
                echo.append("SubmitOK")
        self.expect(vm, "S08 P03" if known == "yes" else "S08 S07 P03", "echo", self.cli[t], t, tuple(echo))

    def in_TaskCancel(self, vm, src, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        if t not in self.cfg.tasks:
            return
        st = mon["st"][t]
        if st == "queued":
            self.expect(vm, "S05 S01 P03", "result", self.cli[t], t, "Canceled")
            mon["st"][t] = "canceled"
            mon["why"].pop(t, None)
            self.stream(vm, t, "Canceled")
        elif st.startswith("@"):
            self.expect(vm, "S05 P03", "cancel", st[1:], t)
            self.stream(vm, t, "Canceling")

    def in_TaskResult(self, vm, src, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        w = self.names.get(src)
        if t is None:
            return
        st = mon["st"].get(t)
        status = m.f["status"].name
        rep = (t, status, m.f["result"], m.f["duration"])
        if t in self.node:
            return self.node_result(vm, t, w, st, status, m)
        if st == "queued" or st.startswith("@"):
            mon["reported"] = mon["reported"] | {rep}
        if st == "@" + w:
            self.expect(vm, "S01 S05 P03" if status in ("Canceled", "NotFound") else "S01 P03", "relay", self.cli[t], t) \
                if not any(e[1:] == ("relay", self.cli[t], t) for e in mon["exp"]) else None

    def in_BalanceResponse(self, vm, src, m):
        mon = vm.st.mon
        w = self.names.get(src)
        for x in m.f["task_ids"].x:
            t = self.names.get(x)
            if mon["st"].get(t) == f"@{w}":
                self.enqueue(vm, t, "back")

    def in_DisconnectRequest(self, vm, src, m):
        w = self.names.get(m.f["worker"])
        if w in vm.st.mon["up"]:
            self.expect(vm, "S11 P03", "disconnect", self.name(src), w)
            self.lost(vm, w)
        else:
            self.allow(vm, "disconnect", self.name(src), w)

    def in_Heartbeat(self, vm, src, m):
        mon = vm.st.mon
        w = self.names.get(src)
        mon["up"] = mon["up"] | {w}
        mon["beat"][w] = frozenset()
        if self.cfg.report:
            i = int(m.f["latency_us"].a[0][-1])
            mon["lastbeat"][w] = i
            if self.cfg.beats:
                mon["nextbeat"][w] = 1 - i
        self.expect(vm, "S11 P03", "echo_hb", w)

    def lost(self, vm, w):
        mon = vm.st.mon
        mon["up"] = mon["up"] - {w}
        mon["beat"].pop(w, None)
        for t, s in list(mon["st"].items()):
            if s == "@" + w:
                self.enqueue(vm, t, "lost")

    # functions
    def in_FunctionRequest(self, vm, src, m):
        mon = vm.st.mon
        f = m.f["function_id"]
        kind = m.f["type"].name
        known = mon["fn"].get(f, "no")
        st = {"yes": ("OK",), "no": ("NotExists",), "maybe": ("OK", "NotExists")}[known]
        if kind == "Add":
            st = {"yes": ("Duplicated",), "no": ("OK",), "maybe": ("OK", "Duplicated")}[known]
            mon["fn"][f] = "yes"
            mon["alive"][f] = frozenset()
        elif kind == "Delete":
            if known != "no" and self.uses(vm, f):
                st = ("StillHaveTask",)
            elif known != "no":
                mon["fn"][f] = "no"
                mon["alive"].pop(f, None)
        content = b"", b""
        if kind == "Request":
            content = self.fname(f), ID("content", f.a[1])
        elif known == "maybe" and kind == "Check":
            pass
        self.expect(vm, "S07 P03", "func", self.name(src), f, st, content, kind)

    def uses(self, vm, f):
        return [t for t, s in vm.st.mon["st"].items() if self.fn(t) == f and (s in ("queued", "dep") or s.startswith("@"))]

    def touch(self, vm, f):
        mon = vm.st.mon
        mon["alive"][f] = mon["alive"].get(f, frozenset()) & mon["rclk"]

    # graphs
    def in_GraphTask(self, vm, src, m):
        mon = vm.st.mon
        g = self.names.get(m.f["task_id"])
        if g not in self.graph or mon["gr"][g] != "sent":
            return
        mon["gr"][g] = "run"
        G = self.graph[g]
        for f in {self.fn(n) for n in G.nodes}:
            self.allow(vm, "gfunc", self.cli[g], f)
            mon["fn"][f] = "yes"
            self.touch(vm, f)
        for n in G.nodes:
            mon["st"][n] = "dep"
            self.expect(vm, "S10", "node", g, n, "Target" if n in G.targets else "Normal", tuple(sorted(G.deps(n))))
        for n in G.nodes:
            if not G.deps(n):
                self.node_ready(vm, n)

    def node_ready(self, vm, n):
        self.allow(vm, "necho", self.cli[n], n)
        self.enqueue(vm, n, "new")

    def node_result(self, vm, n, w, st, status, m):
        mon = vm.st.mon
        if st != "@" + w:
            return
        G = self.node[n]
        g = G.name
        mon["st"][n] = "done"
        self.touch(vm, self.fn(n))
        self.stream(vm, n, status)
        if mon["gr"][g] != "run":
            self.forget_results(vm, g)
            self.allow(vm, "nresult", self.cli[n], n)
            return
        if status == "Success":
            mon["pl"][n] = m.f["result"]
            for x in G.nodes:
                if mon["st"][x] == "dep" and all(mon["st"][d] == "done" for d in G.deps(x)):
                    self.node_ready(vm, x)
            if all(mon["st"][x] == "done" for x in G.nodes):
                self.expect(vm, "G02 P03", "gresult", self.cli[g], g, "Success", tuple(mon["pl"][x] for x in G.targets))
                self.end_graph(vm, g)
        else:
            self.expect(vm, "G03 P03", "gresult", self.cli[g], g, status, (m.f["result"],))
            self.stop_graph(vm, g)

    def end_graph(self, vm, g):
        mon = vm.st.mon
        mon["gr"][g] = "ended"
        self.forget_results(vm, g)

    def forget_results(self, vm, g):
        mon = vm.st.mon
        if mon["gr"][g] == "ended" and not any(mon["st"][n] == "queued" or mon["st"][n].startswith("@") for n in self.graph[g].nodes):
            for n in self.graph[g].nodes:
                mon["pl"].pop(n, None)

    def stop_graph(self, vm, g):
        mon = vm.st.mon
        for n in self.graph[g].nodes:
            s = mon["st"][n]
            if s == "dep":
                mon["st"][n] = "stopped"
                self.touch(vm, self.fn(n))
            elif s == "queued":
                mon["st"][n] = "stopped"
                mon["why"].pop(n, None)
                self.allow(vm, "nresult", self.cli[n], n)
                self.stream(vm, n, "Canceled")
                self.touch(vm, self.fn(n))
            elif s.startswith("@"):
                self.expect(vm, "G03 P03", "cancel", s[1:], n)
                self.stream(vm, n, "Canceling")
        self.end_graph(vm, g)

    def in_GraphTaskCancel(self, vm, src, m):
        mon = vm.st.mon
        g = self.names.get(m.f["task_id"])
        if g in self.graph and mon["gr"][g] == "run":
            self.stop_graph(vm, g)

    # ------------------------------------------------------------------ what the scheduler sends
    def on_send(self, vm, to, frames):
        m = self.M.read(frames)
        if m is None:
            self.bad("P05", "send", f"sends frames no codec can read: {describe(frames)}")
            return
        w = self.names.get(to)
        mon = vm.st.mon
        kind = m.cls.name
        self.checked("sent " + kind)
        if w in self.cfg.workers and w not in mon["up"] and kind not in ("DisconnectResponse", "FunctionResponse", "Task"):
            self.bad("S03 S11", "send-to-lost", f"{kind} sent to {w}, which is lost or was never heard of,")
        h = getattr(self, "out_" + kind, None)
        if h is not None:
            h(vm, to, m)

    def args_of(self, m):
        return tuple((a.f["type"].name, a.f["data"]) for a in m.f["function_args"].x)

    def out_Task(self, vm, to, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        w = self.names.get(to)
        if t is None:
            return
        if w not in self.cfg.workers:
            self.bad("S01 S03", "dispatch-target", f"task sent to {describe(to)}, which is not a worker,")
            return
        st = mon["st"][t]
        if st == "rejected":
            self.bad("S08", "rejected-dispatched", f"{t} was rejected and is dispatched to {w}")
        elif st == "canceled" or st == "stopped":
            self.bad("S05 S01" if t in self.cfg.tasks else "G03", "canceled-dispatched",
                     f"{t} was canceled while queued and is dispatched to {w}")
        elif st == "done":
            self.bad("S01 S04" if t in self.cfg.tasks else "G01", "finished-dispatched",
                     f"{t} already has its terminal result and is dispatched to {w}")
        elif st == "new" or st == "sent":
            self.bad("S08" if t in self.cfg.tasks else "G01", "dispatch-before-accept", f"{t} is dispatched before it was accepted")
        elif st == "dep":
            self.bad("G01", "dispatch-before-dependency", f"{t} is dispatched before the nodes it refers to have succeeded")
        elif st.startswith("@"):
            self.bad(CONFLICT + (" G01" if t in self.node else ""), "double-assignment", f"{t} sent to {w} while it is assigned to {st[1:]}")
        if w not in mon["up"]:
            self.bad("S03 S11", "dispatch-to-lost", f"{t} sent to {w}, which is lost or was never heard of,")
        want = self.args[t]
        if t in self.node:
            want = tuple(("Data", mon["pl"].get(self.names[d])) if k == "Task" else (k, d) for k, d in want)
        got = self.args_of(m)
        if got != want or m.f["function_id"] != self.fn(t):
            self.bad("G01" if t in self.node else "S01", "dispatch-altered",
                     f"{t} is dispatched with function {describe(m.f['function_id'])} and arguments {describe(got)} instead of "
                     f"{describe(self.fn(t))} {describe(want)}")
        if st == "queued":
            load = {u: self.count(vm, u, t) for u in sorted(mon["up"])}
            if w in load and load[w] + 1 > self.cfg.queue_size:
                self.bad("S06", "queue-size", f"{w} gets task {load[w] + 1}, its queue size is {self.cfg.queue_size},")
            elif w in load and load[w] > min(load.values()):
                self.bad("S06", "least-loaded", f"{t} sent to {w} with {load[w]} tasks while another worker has {min(load.values())}")
            mon["st"][t] = "@" + w
            mon["why"].pop(t, None)
            self.stream(vm, t, "Running")
        if w not in mon["gone"]:
            mon["held"] = mon["held"] | {(w, t)}

    def out_TaskCancel(self, vm, to, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        w = self.names.get(to)
        if t is None:
            return
        if not self.discharge(vm, "cancel", w, t):
            self.bad("S05" if t in self.cfg.tasks else "G03", "cancel-unowed",
                     f"cancel of {t} sent to {self.name(to)}, the task is {mon['st'][t]} and nobody asked for it now,")
        if w in self.cfg.workers and w not in mon["gone"] and mon["pend"].count((w, t)) < 2:
            mon["pend"] = tuple(sorted(mon["pend"] + ((w, t),)))

    def out_TaskEcho(self, vm, to, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        c = self.names.get(to)
        s = m.f["status"].name
        if t in self.node:
            if s not in ("SubmitOK",):
                self.bad("G01", "node-rejected", f"node {t} is rejected with {s}")
                self.stop()
            elif not self.discharge(vm, "necho", c, t):
                self.bad("G01", "node-twice", f"node {t} is submitted although its dependencies are unfinished or a second time")
            return
        if t not in self.cfg.tasks:
            return
        for e in mon["exp"]:
            if e[1] == "echo" and e[3] == t:
                if e[2] != c:
                    self.bad("S08", "echo-target", f"echo for {t} sent to {self.name(to)} instead of {e[2]}")
                if s not in e[4]:
                    self.bad(e[0], "admission", f"{t} is answered with {s} instead of {'/'.join(e[4])}")
                mon["exp"] = tuple(x for x in mon["exp"] if x is not e)
                if s == "SubmitOK":
                    self.enqueue(vm, t, "new")
                    mon["fn"][self.fn(t)] = "yes"
                    self.touch(vm, self.fn(t))
                else:
                    mon["st"][t] = "rejected"
                    if s == "FunctionNotExists":
                        mon["fn"][self.fn(t)] = "no"
                return
        self.bad("S08", "echo-unowed", f"echo {s} for {t}, which is not owed one,")

    def out_TaskResult(self, vm, to, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        c = self.names.get(to)
        status = m.f["status"].name
        if t in self.node:
            if not self.discharge(vm, "nresult", c, t):
                self.bad("G03", "node-result", f"result of node {t} is sent to {self.name(to)}")
            return
        if t not in self.cfg.tasks:
            self.bad("S01", "result-unknown", f"result for an unknown task {describe(m.f['task_id'])}")
            return
        if c != self.cli[t]:
            self.bad("S01", "result-target", f"result of {t} sent to {self.name(to)} instead of {self.cli[t]}")
        if status == "Canceled" and self.discharge(vm, "result", self.cli[t], t, "Canceled"):
            mon["st"][t] = "done"
            self.finish(vm, t)
            return
        st = mon["st"][t]
        rep = (t, status, m.f["result"], m.f["duration"])
        if st == "queued" or st.startswith("@"):
            if rep not in mon["reported"]:
                self.bad("S01 S05" if status in ("Canceled", "NotFound") else "S01", "result-altered",
                         f"result {status}/{describe(m.f['result'])} for {t} was not reported by a worker")
            mon["st"][t] = "done"
            mon["why"].pop(t, None)
            self.stream(vm, t, status)
            self.discharge(vm, "relay", self.cli[t], t)
            self.finish(vm, t)
        elif st == "done" or st == "canceled":
            self.bad("S01", "answered-once", f"second terminal result ({status}) for {t}")
        elif st == "rejected":
            self.bad("S08", "result-rejected", f"result ({status}) for {t}, which was rejected,")
        else:
            self.bad("S01", "result-unaccepted", f"result ({status}) for {t}, which was not accepted,")

    def finish(self, vm, t):
        mon = vm.st.mon
        mon["reported"] = frozenset(r for r in mon["reported"] if r[0] != t)
        self.touch(vm, self.fn(t))

    def out_HeartbeatEcho(self, vm, to, m):
        if not self.discharge(vm, "echo_hb", self.names.get(to)):
            self.bad("S11", "heartbeat-echo", f"heartbeat echo sent to {self.name(to)} without a heartbeat")

    def out_DisconnectResponse(self, vm, to, m):
        if not self.discharge(vm, "disconnect", self.name(to), self.names.get(m.f["worker"])):
            self.bad("S11", "disconnect-response", f"disconnect of {self.name(m.f['worker'])} confirmed to {self.name(to)}")

    def out_BalanceRequest(self, vm, to, m):
        mon = vm.st.mon
        w = self.names.get(to)
        n = m.f["number_of_tasks"]
        if self.cfg.start != "direct":
            self.checked("option load_balance")
            if not mon["trig"]:
                self.alarm("K01", "trigger", "load_balance_trigger_times", "tasks are moved although the number of equal advices is not the one asked for")
            if not mon["inuse"]:
                self.alarm("K01", "interval", "load_balance_seconds", "tasks are moved without regard to the rebalancing interval asked for at " + self.here()[1])
        elif not self.cfg.balance:
            self.alarm("S13", "disabled", "BalanceRequest", f"{w} is asked for {describe(n)} tasks although rebalancing is switched off, at " + self.here()[1])
        elif self.cfg.trigger:
            advice, times = mon["advice"]
            want = dict(advice).get(w, 0)
            self.checked("rebalancing compared")
            if mon["round"] and (n != want and n != dict(self.advice(vm)).get(w, 0)):
                self.bad("S13", "surplus", f"{w} is asked for {describe(n)} tasks, its surplus is {want},")
            elif not mon["round"] or times < self.cfg.trigger:
                self.bad("S13", "times", f"{w} is asked for tasks after {times} equal rounds instead of {self.cfg.trigger}")
            self.discharge(vm, "balance", w)
        if w in self.cfg.workers and w not in mon["gone"] and len(mon["bal"]) < 1:
            mon["bal"] = mon["bal"] + ((w, n if type(n) is int else 2),)

    def out_FunctionResponse(self, vm, to, m):
        mon = vm.st.mon
        f = m.f["function_id"]
        s = m.f["status"].name
        who = self.name(to)
        got = (m.f["function_name"], m.f["content"])
        for e in mon["exp"]:
            if e[1] == "func" and e[2] == who and e[3] == f:
                mon["exp"] = tuple(x for x in mon["exp"] if x is not e)
                if s not in e[4]:
                    self.bad("S07", "function-status", f"{e[6]} of {describe(f)} by {who} is answered with {s} instead of {'/'.join(e[4])}")
                elif got != e[5] and not (s == "NotExists" and got == (b"", b"")) and e[6] == "Request":
                    self.bad("S07 W06", "function-content", f"request of {describe(f)} is answered with {describe(got)}")
                if s == "NotExists":
                    mon["fn"][f] = "no"
                elif e[6] in ("Check", "Request"):
                    mon["fn"][f] = "yes"
                return
        if self.discharge(vm, "gfunc", who, f):
            return
        self.bad("S07", "function-response", f"function response {s} for {describe(f)} to {who}, which is not owed one,")

    def out_FunctionRequest(self, vm, to, m):
        mon = vm.st.mon
        f = m.f["function_id"]
        if m.f["type"].name != "Delete":
            self.bad("S07", "function-request", f"sends {m.f['type'].name} to {self.name(to)}")
            return
        mon["told"] = mon.get("told", frozenset()) | {(self.names.get(to), f)}
        if mon["fn"].get(f) == "yes":
            self.bad("S07", "function-dropped", f"{describe(f)} is dropped although "
                     + ("a task uses it" if self.uses(vm, f) else "it has not been idle for the retention time"))
            mon["fn"][f] = "no"

    def out_GraphTaskResult(self, vm, to, m):
        mon = vm.st.mon
        g = self.names.get(m.f["task_id"])
        if g is None:
            return
        what = (self.names.get(to), g, m.f["status"].name, tuple(m.f["results"].x))
        if not self.discharge(vm, "gresult", *what):
            e = [x for x in mon["exp"] if x[1] == "gresult" and x[3] == g]
            if e:
                mon["exp"] = tuple(x for x in mon["exp"] if x is not e[0])
            self.bad("G02" if what[2] == "Success" else "G03", "graph-result",
                     f"graph result {describe(what)} " + (f"instead of {describe(e[0][2:])}" if e else f"is not owed (the graph is {mon['gr'][g]})"))

    def on_monitor(self, vm, frames):
        m = self.M.read(frames)
        if m is None:
            self.bad("P05 S10", "stream", f"publishes frames no codec can read: {describe(frames)}")
            return
        self.checked("published " + m.cls.name)
        if m.cls.name == "SchedulerState":
            self.discharge(vm, "report")
            if self.cfg.report:
                report.compare(self, vm, frames)
            if self.cfg.display:
                from .display import show

                show(self, vm, frames)
        if m.cls.name == "GraphTaskState":
            what = (self.names.get(m.f["graph_task_id"]), self.names.get(m.f["task_id"]), m.f["node_task_type"].name,
                    tuple(sorted(str(self.names.get(x)) for x in m.f["parent_task_ids"].x)))
            if not self.discharge(vm, "node", *what):
                self.bad("S10", "node-wrong", f"node {what[1]} of graph {what[0]} is announced as {what[2]} that depends on {', '.join(what[3]) or 'nothing'}")
        if m.cls.name == "TaskState":
            t = self.names.get(m.f["task_id"])
            if t is None:
                return
            s = m.f["status"].name
            mon = vm.st.mon
            if self.cfg.counts and s in report.ENDS:
                mon["ends"][s] = min(mon["ends"].get(s, 0) + 1, self.int_cap)
            if not self.discharge(vm, "stream", t, s, m.f["function_name"]):
                owed = [e for e in mon["exp"] if e[1] == "stream" and e[2] == t]
                # the state may be published just before the message that makes it true
                k = ("stream", t, s, m.f["function_name"])
                if k not in mon.get("early", ()):
                    mon["early"] = mon.get("early", ()) + (k,)
                else:
                    self.bad("S10", "stream-twice", f"{s} of {t} is published twice")
                del owed

    # ------------------------------------------------------------------ end of a reaction
    def check(self, vm):
        mon = vm.st.mon
        if mon.get("trig"):
            mon["trig"] = False
        self.settle_stream(vm)
        if mon["sock"] is not None and mon["sock"].f["inbox"].x:
            self.explorer.alarm_end(self, "S02 P03", "stuck", "binder", "a delivered message is not consumed: the receive loop is stuck")
        for e in mon["exp"]:
            self.owed(vm, e)
        mon["exp"] = ()
        mon["opt"] = tuple(o for o in mon["opt"] if o[0] in ("necho",))
        mon["cur"] = None
        mon["rclk"] = frozenset()
        mon.pop("now", None)
        q = self.queued(vm)
        free = self.free(vm)
        if q and free:
            t = q[0]
            why = mon["why"].get(t, "new")
            props = {"new": "S01", "lost": "S01 S03", "back": "S01 S04"}[why] + " S06" + (" S11" if self.cfg.timeouts else "")
            if t in self.node:
                props += " G01"
            if why == "back" or t in self.node:
                props += " P03"
            self.explorer.alarm_end(self, props, "not-dispatched", why,
                                    f"{t} ({'queued again after it was ' if why != 'new' else ''}{why}) stays queued although {free[0]} has a free slot")
        self.check_told(vm)
        self.scan(vm)

    def settle_stream(self, vm):
        mon = vm.st.mon
        for k in mon.pop("early", ()):
            if not self.discharge(vm, *k):
                self.explorer.alarm_end(self, "S10", "stream-wrong", k[2], f"{k[2]} of {k[1]} (function {describe(k[3])}) is published without cause")

    def check_told(self, vm):
        mon = vm.st.mon
        told = mon.pop("told", frozenset())
        for f in sorted({f for w, f in told}, key=repr):
            missing = sorted(w for w in mon["up"] if (w, f) not in told)
            if missing:
                self.explorer.alarm_end(self, "S07", "delete-not-told", "workers", f"{describe(f)} is dropped but {missing} are not told")
            mon["fn"][f] = "no"
            mon["alive"].pop(f, None)
        for f in sorted((f for f, k in mon["fn"].items() if k == "maybe"), key=repr):
            # it has been idle for too long: it has to be dropped, which can be seen only by those that are told
            if mon["up"]:
                self.explorer.alarm_end(self, "S07", "drop-not-told", "workers", f"{describe(f)} has been idle for longer than the retention time but "
                                        f"{sorted(mon['up'])} are not told to drop it")
            mon["fn"][f] = "no"
            mon["alive"].pop(f, None)

    TEXT = {"echo": "no echo for {3}", "result": "{3} was canceled while queued but its client gets no result",
            "cancel": "the cancel of {3} is not forwarded to {2}", "relay": "the result of {3} is not relayed to its client",
            "disconnect": "the disconnect of {3} is not confirmed to {2}", "echo_hb": "the heartbeat of {2} is not echoed",
            "func": "the function request of {2} is not answered", "gresult": "graph {3} ended with {4} but its client gets no result",
            "balance": "{2} is not asked for its surplus although the same imbalance was seen the number of times asked for",
            "report": "no status report is published", "stream": "state {3} of {2} is not published",
            "node": "node {3} of graph {2} is not announced to the monitors"}

    def owed(self, vm, e):
        if e[1] == "report":
            return self.explorer.alarm_end(self, e[0], "owed-report", "report", self.TEXT["report"])
        self.explorer.alarm_end(self, e[0], "owed-" + e[1], str(e[4]) if e[1] in ("gresult",) else e[1] + (str(e[3]) if e[1] == "stream" else ""),
                                self.TEXT[e[1]].format(*e))

    def scan(self, vm):
        """S09: no container of the scheduler mentions finished work"""
        if self.props is not None and not self.props & {"S09", "G03"}:
            return
        mon = vm.st.mon
        over = {tid(t): t for t, s in mon["st"].items()
                if s in ("done", "rejected", "stopped") and (t not in self.node or mon["gr"][self.node[t].name] == "ended")}
        for g, s in mon["gr"].items():
            if s == "ended":
                over[tid(g)] = g
        if not over:
            return
        found = self.find_ids(vm, over)
        for t, where in sorted(found):
            self.explorer.alarm_end(self, "S09 G03" if t in self.node or t in self.graph else "S09", "left-behind", where,
                                    f"{t} is finished but still mentioned in {where}")

    def find_ids(self, vm, over):
        out = set()
        seen = set()
        todo = []

        def visit(v, path):
            t = type(v)
            if t is Obj:
                if not v.frozen and id(v) not in seen:
                    seen.add(id(v))
                    todo.append((v, path))
            elif t is tuple or t is list:
                for e in v:
                    visit(e, path)
            elif t is Bound:
                visit(v.self, path)
            elif t is Frame:
                for e in v.stack:
                    visit(e, path)
                for e in v.fast.values():
                    visit(e, path)
                visit(v.gen, path)
                visit(v.data, path)
            elif t is VFunc and not v.static:
                for e in v.closure:
                    visit(e, path)

        def hit(v, path):
            if type(v) is Sym and v in over:
                out.add((over[v], path))
            elif type(v) is tuple:
                for e in v:
                    hit(e, path)

        for s in vm.st.strands:
            if s.status not in ("done", "dead"):
                for f in s.frames:
                    visit(f, "")
        for n in vm.st.thawed.values():
            visit(n, "")
        while todo:
            o, path = todo.pop()
            for k, v in o.f.items():
                p = f"{o.cls.name}.{k}" if not o.cls.builtin else path
                if p and not o.cls.builtin and o.cls.module and False:
                    pass
                visit(v, p)
                if path and not o.cls.builtin:
                    hit(v, p)
            x = o.x
            if type(x) is dict:
                for k, v in x.items():
                    if path:
                        hit(k, path)
                        hit(v, path)
                    visit(k, path)
                    visit(v, path)
            elif type(x) is list or type(x) is tuple:
                for v in x:
                    if path:
                        hit(v, path)
                    visit(v, path)
            elif x is not None:
                visit(x, path)
        return out

    def label(self, vm):
        mon = vm.st.mon
        bad = [t for t, s in mon["st"].items() if s == "queued" or s == "sent" or s.startswith("@")]
        bad += [g for g, s in mon["gr"].items() if s in ("run", "sent")]
        hope = [w for w in self.cfg.workers if w not in mon["gone"]]
        return frozenset(bad), bool(hope)

    def conclude(self):
        """no accepted work is lost: its terminal state stays reachable"""
        ex = self.explorer
        if not self.cfg.ef or not ex.complete or self.props is not None and not self.props & {"S01", "S03", "S11", "G02"}:
            return
        for t in list(self.all) + list(self.graph):
            for n in ex.cannot_reach(lambda x: t not in x[0]):
                if ex.labels[n][1]:
                    ex.current = n
                    ex.label = None
                    props = "G02 G03" if t in self.graph or t in self.node else "S01 S03 S11" if self.cfg.timeouts else "S01 S03"
                    for p in props.split():
                        self.alarm(p, "lost", t, f"{t} can never be finished any more", ())
                    break

    # ------------------------------------------------------------------ clocks
    def clock(self, vm, name):
        v = super().clock(vm, name)
        mon = vm.st.mon
        cur = mon.get("cur")
        if cur is None:
            return v
        m = self.M.read(cur[1:])
        if m is None:
            return v
        if m.cls.name == "Heartbeat":
            w = self.names.get(cur[0])
            if w in mon["beat"]:
                mon["beat"][w] = mon["beat"][w] | {v}
        fs = set()
        if m.cls.name == "FunctionRequest":
            fs.add(m.f["function_id"])
        elif "task_id" in m.f:
            t = self.names.get(m.f["task_id"])
            if t in self.all:
                fs.add(self.fn(t))
            if t in self.graph:
                fs |= {self.fn(n) for n in self.graph[t].nodes}
            if t in self.node:
                fs |= {self.fn(n) for n in self.node[t].nodes}
        mon["rclk"] = mon["rclk"] | {v}
        for f in fs:
            mon["alive"][f] = mon["alive"].get(f, frozenset()) | {v}
        return v

    @staticmethod
    def elapsed(key, op_, bound, atom):
        """reads  now - since <op> limit  out of a linear fact; (since symbols, exceeded) or None"""
        c = dict(key)
        for s, k in c.items():
            if s.k == "atom" and s.a[0] == atom:
                break
        else:
            return None
        rest = {x: y / -k for x, y in c.items() if x is not s}
        if sorted(rest.values()) != [-1, 1] or bound != 0:
            return None
        if -k < 0:
            op_ = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op_, op_)
        since = [x for x, y in rest.items() if y == -1][0]
        if op_ in (">", ">="):
            return since, True
        if op_ in ("<", "<="):
            return since, False
        return None

    def query(self, vm, name, args):
        if self.view is not None:
            return self.view.query(vm, name, args)
        if name == "reading":
            kind, pid, t = args
            return TERM("reading", kind, "own" if pid is None or pid == ATOM("+pid", "int") else pid, vm.unk(t))
        if name == "argument":
            return options.argument(vm, self.given, args)
        return None

    def force_rel(self, vm, key, op_, bound):
        if self.view is not None:
            return self.view.force_rel(vm, key, op_, bound)
        for atom, on in ((TIMEOUT, self.cfg.timeouts), (RETENTION, self.cfg.ftimer)):
            if not on:
                e = self.elapsed(key, op_, bound, atom)
                if e is not None:
                    return not e[1]
        return None

    def on_rel(self, vm, key, op_, bound):
        mon = vm.st.mon
        if self.cfg.start != "direct":
            self.option_used(vm, key, op_, bound)
        for atom, p, what in ((TIMEOUT, "S11", "the time since a worker's last heartbeat"), (RETENTION, "S07", "the time since a function was used")):
            if any(s.k == "atom" and s.a[0] == atom for s, _ in key):
                self.checked("period compared: " + p)
                self.clocks_compared(vm, key, p, what)
        e = self.elapsed(key, op_, bound, TIMEOUT)
        if e is not None and e[1]:
            for w, b in list(mon["beat"].items()):
                if e[0] in b:
                    self.lost(vm, w)
        e = self.elapsed(key, op_, bound, RETENTION)
        if e is not None:
            for f, b in list(mon["alive"].items()):
                if e[0] in b and e[1] and not self.uses(vm, f) and mon["fn"].get(f) == "yes":
                    mon["fn"][f] = "maybe"

    def option_used(self, vm, key, op_, bound):
        mon = vm.st.mon
        names = {s.a[0] for s, k in key if s.k == "atom"}
        if TRIGGER in names and op_ == "==":
            mon["trig"] = True
        if INTERVAL in names and len(key) > 1:
            mon["inuse"] = True

    # ------------------------------------------------------------------ environment
    def env(self, vm):
        c = self.cfg
        mon = vm.st.mon
        stop = [(f"signal {n}", self.signal(n)) for n in (2, 15)] if c.signals else []
        if mon["sock"] is None or mon["sock"].f["inbox"].x:
            return stop
        msgs = self.messages(vm)
        acts = []

        def one(src, key, upd):
            def act(vm):
                if upd is not None:
                    upd(vm)
                self.deliver(vm, src, self.fr[key])

            return act

        for label, src, key, upd in msgs:
            acts.append((label, one(src, key, upd)))
        if c.burst:
            for i, a in enumerate(msgs):
                def pair(vm, a=a, i=i):
                    one(*a[1:])(vm)
                    rest = [m for m in self.messages(vm)]
                    k = vm.choose(len(rest), "then") if rest else None
                    if k is not None:
                        self.explorer.label += " + " + rest[k][0]
                        one(*rest[k][1:])(vm)

                acts.append((a[0], pair))
        if c.silent:
            for w in c.mortal:
                if w in mon["up"] and w not in mon["gone"]:
                    def act(vm, w=w):
                        self.depart(vm, w)

                    acts.append((f"{w} dies silently", act))
        for owner, i in self.timers(vm):
            if self.timer_ok(vm, owner):
                rounds = c.balance and c.trigger and c.start == "direct" and "Worker" in owner
                acts.append((f"timer {owner}", self.due(i) if "Status" in owner else self.round(i) if rounds else self.fire(i)))
        return acts + stop

    def due(self, i):
        def act(vm):
            self.expect(vm, "K03", "report")
            vm.wake(vm.st.strands[i])

        return act

    def depart(self, vm, w):
        m = vm.st.mon
        m["gone"] = m["gone"] | {w}
        m["held"] = frozenset(h for h in m["held"] if h[0] != w)
        m["pend"] = tuple(h for h in m["pend"] if h[0] != w)
        m["bal"] = tuple(h for h in m["bal"] if h[0] != w)

    def messages(self, vm):
        """(label, source, frames key, update of the environment's state)"""
        c = self.cfg
        mon = vm.st.mon
        st, can = mon["st"], mon["can"]
        out = []

        def send(label, src, key, upd=None):
            out.append((label, src, key, upd))

        new = [t for t in c.tasks if st[t] == "new"]
        for t in new[:1] if len({self.fn(t) for t in c.tasks}) < 2 and len(set(c.tasks.values())) < 2 else new:
            def upd(vm, t=t):
                vm.st.mon["st"][t] = "sent"

            send(f"{self.cli[t]} submits {t}", cid(self.cli[t]), ("task", t), upd)
        for t in c.tasks:
            if can[t] < c.cancels and st[t] not in ("new", "rejected"):
                def upd(vm, t=t):
                    vm.st.mon["can"][t] += 1

                send(f"{self.cli[t]} cancels {t}", cid(self.cli[t]), ("cancel", t), upd)
        if c.unknown_cancel:
            send("c1 cancels an unknown task", cid("c1"), ("cancel", "?"))
            send("c1 cancels an unknown graph", cid("c1"), ("gcancel", "?"))
        for g in self.graph:
            if mon["gr"][g] == "new":
                def upd(vm, g=g):
                    vm.st.mon["gr"][g] = "sent"

                send(f"{self.cli[g]} submits graph {g}", cid(self.cli[g]), ("graph", g), upd)
            if can[g] < c.gcancels and mon["gr"][g] != "new":
                def upd(vm, g=g):
                    vm.st.mon["can"][g] += 1

                send(f"{self.cli[g]} cancels graph {g}", cid(self.cli[g]), ("gcancel", g), upd)
        known = [w for w in c.workers if w in mon["up"] or w in mon["gone"] or w in mon["end"]]
        for w in c.workers:
            if w in mon["gone"]:
                continue
            i = c.workers.index(w)
            if c.mortal == () and i and c.workers[i - 1] not in known:
                continue
            if w not in mon["up"] or c.timeouts or c.beats:
                def upd(vm, w=w):
                    vm.st.mon["end"] = vm.st.mon["end"] | {w}

                i = mon["nextbeat"].get(w, 0)
                send(f"{w} heartbeat", wid(w), ("hb", w, i), upd)
        for w, t in sorted(mon["held"]):
            for s in ("Success", "Failed") if c.failing else ("Success",):
                def upd(vm, w=w, t=t, s=s):
                    m = vm.st.mon
                    m["held"] = m["held"] - {(w, t)}
                    if self.cfg.duplicates:
                        m["dup"] = (w, t, s)

                send(f"{w} reports {s} of {t}", wid(w), ("result", w, t, s), upd)
        if mon.get("dup"):
            w, t, s = mon["dup"]

            def upd(vm):
                vm.st.mon["dup"] = None

            send(f"{w} repeats {s} of {t}", wid(w), ("result", w, t, s), upd)
        for w, t in sorted(set(mon["pend"])):
            has = (w, t) in mon["held"]
            s = "Canceled" if has else "NotFound"

            def upd(vm, w=w, t=t):
                m = vm.st.mon
                m["held"] = m["held"] - {(w, t)}
                p = list(m["pend"])
                p.remove((w, t))
                m["pend"] = tuple(p)

            send(f"{w} answers the cancel of {t}: {s}", wid(w), ("result", w, t, s), upd)
        if mon["bal"]:
            w, n = mon["bal"][0]
            held = [t for x, t in sorted(mon["held"]) if x == w]
            for k in range(0, min(n, len(held), 2) + 1):
                for sub in itertools.combinations(held, k):
                    def upd(vm, w=w, sub=sub):
                        m = vm.st.mon
                        m["bal"] = m["bal"][1:]
                        m["held"] = m["held"] - {(w, t) for t in sub}

                    send(f"{w} hands back {sub}", wid(w), ("back", w, sub), upd)
                    if c.stray and k < 2:
                        # named beside what it hands back: work that is not (any more) the sender's
                        if sub:
                            send(f"{w} hands back {sub * 2}", wid(w), ("back", w, sub * 2), upd)
                        for t in self.all:
                            if (w, t) not in mon["held"] and mon["st"][t] != f"@{w}":
                                for both in ((t, *sub), (*sub, t)) if sub else ((t,),):
                                    send(f"{w} hands back {both}", wid(w), ("back", w, both), upd)
        if c.disconnect:
            for w in c.mortal:
                if w in mon["up"] and w not in mon["gone"]:
                    def upd(vm, w=w):
                        self.depart(vm, w)

                    send(f"{w} disconnects", wid(w), ("disc", w), upd)
        if c.junk:
            for k in self.strange:
                for src in (cid("c1"), wid(c.workers[0]), ID("peer", "stranger")):
                    send(f"{self.name(src)} sends an unexpected {k[1]}", src, k)
        if c.foreign_disconnect:
            for w in c.workers:
                if w not in mon["gone"]:
                    send(f"c1 disconnects {w}", cid("c1"), ("disc", w))
        if c.functions:
            for f in (FN, FN2)[:1 if len({self.fn(t) for t in self.all}) < 2 else 2]:
                send(f"c1 adds {f!r}", cid("c1"), ("func", "Add", f))
                send(f"c1 checks {f!r}", cid("c1"), ("func", "Check", f))
                send(f"c1 deletes {f!r}", cid("c1"), ("func", "Delete", f))
                for w in sorted(mon["up"])[:1]:
                    send(f"{w} requests {f!r}", wid(w), ("func", "Request", f))
        return out

    def timer_ok(self, vm, owner):
        c = self.cfg
        if "Status" in owner:
            return c.status
        if "Function" in owner:
            return c.ftimer
        if "Worker" in owner:
            return c.timeouts or c.balance
        return c.status or c.ftimer or c.timeouts or c.balance

    # ------------------------------------------------------------------ failures
    def died(self, vm, s, err):
        if err.cls.issub(vm.T["CancelledError"]):
            if s.name == "main" and s.task is None:
                self.alarm("K02", "exception", "CancelledError", "the scheduler ends with CancelledError", ())
            return
        if vm.st.mon.get("ending"):
            self.alarm("K02", "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                       f"{exc_text(err)} while the scheduler stops: {site_text(err.tb)}", err.tb)
            raise Cut()
        self.check_after_death(vm, s, err)
        raise Cut()

    def check_after_death(self, vm, s, err):
        props = {"S02"}
        if vm.st.mon["cur"] is not None:
            props.add("P03")
        for e in vm.st.mon["exp"]:
            props |= set(e[0].split())
        for p in sorted(props):
            self.alarm(p, "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                       f"{exc_text(err)} escapes from the scheduler's loops: {site_text(err.tb)}", err.tb)

    def after_strand(self, vm, s):
        if s.name == "main" and s.status == "done" and s.task is None and not vm.st.mon.get("ending"):
            for p in ("S02", "K01", "K02"):
                self.alarm(p, "ended", "main", "the scheduler's process ends without cause", ())
            raise Cut()
        if s.status == "done" and s.task is not None and not vm.st.mon.get("ending"):
            self.alarm("S02", "loop-ended", s.name, f"a loop of the scheduler ended: {s.name}", ())
        return True
