"""The worker agent between its scheduler and its processor process.

The program runs from Worker.run with unknown options.  The environment is a conforming scheduler on the routed socket and a
conforming processor on the internal pair socket; every process the agent starts is a new processor that announces itself.
"""
from __future__ import annotations

from .base import *  # noqa: F401,F403
from . import options
from .base import TERM, mk_lin, ratio, MonitorWorld, Messages, ID, ATOM, Cut, describe, exc_text, construct_of, site_text, AnalysisError, GuestError, Obj, Sym

DEATH = "death_timeout_seconds"
TRIP = ATOM("+round trip in nanoseconds", "int")
TRIP_S = ATOM("+round trip in seconds", "float")


class Cfg:
    tasks = ("t1", "t2")
    functions = {}          # task -> function name, default "f"
    cancels = 1             # cancels per task
    unknown_cancel = False
    resend = False          # a task that was handed back may come again
    balance = False
    load = False            # the processor may have to ask for functions
    missing = False         # the scheduler may not know the function any more
    delete = False          # the scheduler drops functions
    heartbeat = False
    timeout = False
    sigint = False
    failing = False
    burst = False
    start = "direct"        # how the worker is started: direct, cli (the cluster program), combo (the combined object)
    n_workers = 3
    which = 0               # which of them is looked at
    stray = False           # a heartbeat echo may come that answers nothing
    stale = True            # a killed processor's last message may still arrive

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


def tid(t):
    return ID("task", t)


class WorkerWorld(options.WorkerStart, MonitorWorld):
    crash_props = "W02"
    TEXT = {"canceled": "the cancel of {2} is not answered with Canceled", "notfound": "the cancel of {2}, which the worker does not have, is not answered",
            "result": "the result of {2} is not passed on", "kill": "the processor that runs the canceled task {2} is not stopped",
            "new": "no new processor is started after {2}", "ask": "the processor's request for {2} is not passed on",
            "function": "function {2} is not passed on to the processor that waits for it", "delete": "dropping {2} is not passed on to the processor",
            "silence": "the time since the last sign of life of the scheduler is not compared with the death timeout",
            "heartbeat": "no heartbeat is sent although none is unanswered",
            "balance": "a rebalancing request is not answered", "stop": "the worker goes on although its scheduler was silent for too long",
            "stopped": "the worker goes on although it was told to stop"}

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.names = {}
        self.int_cap = max(3, len(cfg.tasks) + 1)

    def fn(self, t):
        return ID("function", self.cfg.functions.get(t, "f"))

    # ------------------------------------------------------------------ set-up
    def prepare(self, vm):
        M = self.M = Messages(vm)
        ns = M.ns
        c = self.cfg
        AT = ns["ArgumentType"].members
        TS = ns["TaskStatus"].members
        FR = ns["FunctionRequestType"].members
        FA = ns["FunctionResponseType"].members
        self.fr = {}
        self.funs = sorted({self.fn(t) for t in c.tasks}, key=repr)
        for t in c.tasks:
            self.names[tid(t)] = t
            self.fr["task", t] = M.make("Task", tid(t), self.fn(t), vm.list([vm.call(ns["Argument"], (AT["Data"], ID("arg", t + ".0"))),
                                                                         vm.call(ns["Argument"], (AT["Data"], ID("arg", t + ".1")))]))
            self.fr["cancel", t] = M.make("TaskCancel", tid(t))
            for s in ("Success", "Failed"):
                self.fr["result", t, s] = M.make("TaskResult", tid(t), TS[s], ATOM(f"duration.{t}", "float"), ID("payload", f"{t}.{s}"))
        self.fr["cancel", "?"] = M.make("TaskCancel", ID("task", "unknown"))
        for n in range(1, len(c.tasks) + 1):
            self.fr["balance", n] = M.make("BalanceRequest", n)
        self.fr["echo"] = M.make("HeartbeatEcho")
        self.fr["ready"] = M.make("TaskResult", b"", TS["Success"], 0, b"")
        for f in self.funs:
            self.fr["ask", f] = M.make("FunctionRequest", FR["Request"], f, b"", b"")
            self.fr["delete", f] = M.make("FunctionRequest", FR["Delete"], f, b"", b"")
            self.fr["function", f] = M.make("FunctionResponse", FA["OK"], f, ID("fname", f.a[1]), ID("content", f.a[1]))
            self.fr["missing", f] = M.make("FunctionResponse", FA["NotExists"], f, b"", b"")

    def setup(self, vm):
        self.start(vm)
        mon = vm.st.mon
        c = self.cfg
        mon["st"] = {t: "new" for t in c.tasks}
        mon["can"] = {t: 0 for t in c.tasks}
        mon["hand"] = {t: 0 for t in c.tasks}
        mon["order"] = ()
        mon["asked"] = ()
        mon["ext"] = mon["int"] = None
        mon["path"] = None
        mon["removed"] = False
        mon["procs"] = ()            # processes that run
        mon["gen"] = None            # current processor: None / (pid, state, task)
        mon["stale"] = None          # task whose result a killed processor may still deliver
        mon["out"] = False           # a heartbeat is on its way
        mon["seen"] = frozenset()    # clock readings of the last sign of life of the scheduler
        mon["over"] = ""             # why the worker must stop
        mon["end"] = None
        mon["left"] = False
        mon["cur"] = None
        mon["beatnow"] = mon["beatsent"] = False
        mon["signals"] = {}
        mon["loop"] = False
        mon["slept"] = None
        mon["strayed"] = False
        mon["rclk"] = frozenset()    # clock readings of this reaction
        mon["sent"] = frozenset()           # clock readings when the last heartbeat was sent
        mon["trip"] = None           # these and the clock readings when its echo came
        if c.start == "direct":
            fn = self.worker(vm)
        else:
            fn = self.worker_main(vm)
        mon = vm.st.mon
        mon["main"] = 0
        mon["cur"] = "start"
        self.main(vm, "main", fn)
        self.run(vm)
        if c.start != "direct":
            if vm.st.mon["loop"] is False:
                self.alarm("K01", "event-loop", "event_loop", f"the event loop asked for ({options.LOOP}) is not used by the worker")
            self.checked("option event_loop")
        self.check(vm)

    def worker(self, vm):
        m = vm.import_module("scaled.worker.worker")
        zc = vm.import_module("scaled.utility.zmq_config").ns
        addr = vm.call(zc["ZMQConfig"], (zc["ZMQType"].members["tcp"],), {"host": "127.0.0.1", "port": 2345})
        ser = vm.import_module("scaled.protocol.python.serializer.default").ns
        w = vm.call(vm.getattr(m, "Worker"), (), dict(
            event_loop="builtin", address=addr, heartbeat_interval_seconds=ATOM("+heartbeat_interval", "int"),
            garbage_collect_interval_seconds=ATOM("gc", "int"), trim_memory_threshold_bytes=ATOM("trim", "int"),
            serializer=vm.call(ser["DefaultSerializer"], ()), function_retention_seconds=ATOM("retention", "int"),
            death_timeout_seconds=ATOM(DEATH, "int")))
        return vm.getattr(w, "run")

    # ------------------------------------------------------------------ boundary
    def emit(self, vm, kind, obj, args):
        mon = vm.st.mon
        if self.cfg.start != "direct":
            r = self.launching(vm, kind, obj, args)
            if r is not None:
                return r[0]
        if kind == "send":
            if mon["end"]:
                self.bad("W07", "after-end", "a message is sent after the worker has stopped")
            if obj is mon["int"]:
                return self.to_processor(vm, tuple(args[0].x))
            if obj is mon["ext"]:
                return self.to_scheduler(vm, tuple(args[0].x))
            raise AnalysisError("a message is sent on an unexpected socket")
        if kind == "recv":
            mon["cur"] = "ext" if obj is mon["ext"] else "int"
            m = self.M.read(tuple(args[0].x))
            if m is not None:
                self.checked(("scheduler: " if obj is mon["ext"] else "processor: ") + m.cls.name)
                getattr(self, ("s_" if obj is mon["ext"] else "p_") + m.cls.name)(vm, m)
            return None
        if kind == "connect":
            mon["ext"] = obj
            if self.cfg.start != "direct":
                self.checked("option address")
                if args[0] != options.ADDRESS:
                    self.bad("K01", "address", f"the worker connects to {describe(args[0])} instead of {options.ADDRESS}")
        elif kind == "event_loop":
            mon["loop"] = obj == options.LOOP
        elif kind == "sleep":
            self.slept(vm, args[0])
        elif kind == "process_exited":
            return vm.getattr(obj, "pid") not in mon["procs"]
        elif kind == "bind":
            mon["int"] = obj
            mon["path"] = args[0]
        elif kind == "remove":
            if vm.concat_str(["ipc://", args[0]]) == mon["path"]:
                mon["removed"] = True
        elif kind == "process_start":
            return self.process_started(vm, obj)
        elif kind in ("process_terminate", "process_kill"):
            self.process_killed(vm, vm.getattr(obj, "pid"))
        elif kind == "kill":
            sig = self.signum(vm, args[0])
            if obj == ATOM("+pid", "int"):
                h = mon["signals"].get(sig)
                if h is not None:
                    vm.call(*h)
            elif sig in (15, 9):
                self.process_killed(vm, obj)
        elif kind == "context_destroy" or kind == "close":
            pass
        elif kind == "add_signal_handler":
            sig = self.signum(vm, args[0])
            mon["signals"] = {**mon["signals"], sig: (args[1], tuple(args[2]))}
        elif kind == "signal":
            sig = self.signum(vm, obj)
            mon["signals"] = {**mon["signals"], sig: (args[0], (sig, None))}
        return None

    def slept(self, vm, delay):
        """the loop that has sent a heartbeat waits for the interval asked for"""
        mon = vm.st.mon
        s = vm.st.strands.index(vm.cur) if vm.cur in vm.st.strands else None
        if mon["slept"] is not None and mon["slept"] == s:
            mon["slept"] = None
            if self.cfg.start != "direct":
                self.checked("option heartbeat interval")
                if delay != ATOM("+heartbeat_interval", "int"):
                    self.alarm("K01", "heartbeat-interval", "heartbeat_interval", f"the worker waits for {describe(delay)} between heartbeats instead of the interval asked for")

    @staticmethod
    def signum(vm, s):
        v = getattr(s, "value", s)
        return v

    def send_ext(self, key):
        def act(vm):
            s = vm.st.mon["ext"]
            s.f["inbox"].x.append(vm.list(self.fr[key]))
            vm.notify(s)

        return act

    def send_int(self, vm, key):
        s = vm.st.mon["int"]
        s.f["inbox"].x.append(vm.list(self.fr[key]))
        vm.notify(s)

    # ------------------------------------------------------------------ processes
    def process_started(self, vm, obj):
        pid = self.own_process(vm, obj, "main")
        if pid is not None:
            return pid
        mon = vm.st.mon
        if obj.cls.name != "Processor":
            raise AnalysisError("the worker starts an unexpected process " + obj.cls.name)
        if mon["procs"]:
            self.bad("W04 W07", "two-processors", "a processor is started while the previous one still runs")
        if mon["over"] and mon["over"] != "loops":
            self.bad("W07", "start-at-end", "a processor is started although the worker is stopping")
        pid = next(ID("pid", f"p{i}") for i in range(9) if ID("pid", f"p{i}") not in mon["procs"] and ID("pid", f"p{i}") != mon.get("dead"))
        mon["procs"] += (pid,)
        mon["gen"] = (pid, "starting", None)
        self.discharge(vm, "new", "the cancel")
        return pid

    def process_killed(self, vm, pid):
        mon = vm.st.mon
        if pid not in mon["procs"]:
            self.bad("W02 W04", "kill-unknown", f"{describe(pid)} is signalled, which is not a running processor")
            return
        mon["procs"] = tuple(p for p in mon["procs"] if p != pid)
        mon["dead"] = pid
        g = mon["gen"]
        if g is None or g[0] != pid:
            return
        t = g[2]
        mon["gen"] = None
        if mon["over"]:
            return
        if t is None or not self.discharge(vm, "kill", t):
            if t is not None:
                self.bad("W04 W01", "killed", f"the processor is stopped while it runs {t}, which was not canceled")
                mon["st"][t] = "done"
            elif not mon["over"]:
                self.bad("W04", "killed", "the processor is stopped although no task of it was canceled")
        elif self.cfg.stale and g[1] in ("got", "busy"):
            mon["stale"] = t

    # ------------------------------------------------------------------ from the scheduler
    def s_Task(self, vm, m):
        mon = vm.st.mon
        t = self.names[m.f["task_id"]]
        mon["st"][t] = "held"
        mon["order"] += (t,)

    def s_TaskCancel(self, vm, m):
        mon = vm.st.mon
        t = self.names.get(m.f["task_id"])
        st = mon["st"].get(t)
        if st == "held":
            self.expect(vm, "W01 P03", "canceled", t)
            mon["st"][t] = "done"
            mon["order"] = tuple(x for x in mon["order"] if x != t)
        elif st == "proc":
            self.expect(vm, "W01 W04 P03", "canceled", t)
            self.expect(vm, "W04", "kill", t)
            self.expect(vm, "W04 W01", "new", "the cancel")
            mon["st"][t] = "done"
        else:
            self.expect(vm, "W01 P03", "notfound", m.f["task_id"])

    def s_BalanceRequest(self, vm, m):
        self.expect(vm, "W01 P03 W11", "balance", m.f["number_of_tasks"])

    def s_HeartbeatEcho(self, vm, m):
        mon = vm.st.mon
        if not mon["out"]:
            return
        mon["out"] = False
        mon["seen"] = frozenset()
        mon["beatnow"] = True
        mon["trip"] = (mon["sent"], frozenset())

    def s_FunctionRequest(self, vm, m):
        f = m.f["function_id"]
        self.expect(vm, "W06 P03", "delete", f)

    def s_FunctionResponse(self, vm, m):
        mon = vm.st.mon
        f = m.f["function_id"]
        g = mon["gen"]
        if g is not None and g[1] == "ask" and self.fn(g[2]) == f:
            if m.f["status"].name == "OK":
                self.expect(vm, "W01 W06 P03", "function", f)
            else:
                t = g[2]
                mon["st"][t] = "done"
                self.expect(vm, "W01 P03", "canceled", t)
                self.allow(vm, "kill", t)
                self.allow(vm, "new", "the cancel")
        elif g is not None and g[2] is not None and self.fn(g[2]) == f and m.f["status"].name != "OK":
            # the answer to an earlier request for the same function
            for w in ("canceled", "kill"):
                self.allow(vm, w, g[2])
            self.allow(vm, "new", "the cancel")
        elif g is not None and m.f["status"].name == "OK":
            self.allow(vm, "function", f)

    # ------------------------------------------------------------------ from the processor
    def p_TaskResult(self, vm, m):
        mon = vm.st.mon
        t = m.f["task_id"]
        g = mon["gen"]
        if t == b"":
            if g is not None and g[1] == "announced":
                mon["gen"] = (g[0], "idle", None)
            return
        t = self.names[t]
        if mon["st"].get(t) == "proc" and g is not None and g[2] == t and g[1] == "reporting":
            self.expect(vm, "W01 P03", "result", t, m.f["status"].name, m.f["result"], m.f["duration"])
            mon["gen"] = (g[0], "idle", None)
            mon["st"][t] = "done"

    def p_FunctionRequest(self, vm, m):
        g = vm.st.mon["gen"]
        f = m.f["function_id"]
        if g is not None and g[1] == "ask" and self.fn(g[2]) == f:
            self.expect(vm, "W01 W06 P03", "ask", f)
        else:
            self.allow(vm, "ask", f)

    # ------------------------------------------------------------------ to the processor
    def to_processor(self, vm, frames):
        mon = vm.st.mon
        m = self.M.read(frames)
        if m is None:
            return self.bad("W02", "malformed", "an undecodable message is sent to the processor")
        self.checked("to processor: " + m.cls.name)
        n = m.cls.name
        g = mon["gen"]
        if n == "Task":
            t = self.names.get(m.f["task_id"])
            if t is None or frames != self.fr["task", t]:
                return self.bad("W01 W06", "task-changed", "the processor is given a task other than the one received")
            st = mon["st"].get(t)
            if st != "held":
                why = {"new": "that it never received", "done": "that is finished or canceled", "proc": "again", "back": "that was handed back"}.get(st, str(st))
                self.bad("W01 W03" if st != "proc" else "W03", "not-held", f"the processor is given {t} {why}")
                return
            if g is None or g[1] != "idle":
                self.bad("W03 W04" if g is None or g[1] in ("starting", "announced") else "W03", "busy",
                         f"the processor is given {t} {'before it has announced itself' if g is None or g[1] == 'starting' else 'while it runs ' + str(g[2])}")
                return
            if mon["order"][0] != t:
                self.bad("W03", "order", f"{t} is started before {mon['order'][0]}, which arrived earlier")
            mon["order"] = tuple(x for x in mon["order"] if x != t)
            mon["st"][t] = "proc"
            mon["gen"] = (g[0], "got", t)
        elif n == "FunctionResponse":
            f = m.f["function_id"]
            if frames != self.fr["function", f]:
                self.bad("W06", "function-changed", "the processor is given a function other than the one received")
            elif not self.discharge(vm, "function", f):
                self.bad("W06", "function-uncalled", "the processor is given a function without cause")
            elif g is not None and g[1] == "ask" and self.fn(g[2]) == f:
                mon["gen"] = (g[0], "busy", g[2])
        elif n == "FunctionRequest":
            f = m.f["function_id"]
            if not self.discharge(vm, "delete", f) or m.f["type"].name != "Delete":
                self.bad("W06", "delete-uncalled", "the processor is told to drop a function without cause")
        else:
            self.bad("W02", "unexpected", f"{n} is sent to the processor")

    # ------------------------------------------------------------------ to the scheduler
    def to_scheduler(self, vm, frames):
        mon = vm.st.mon
        m = self.M.read(frames)
        if m is None:
            return self.bad("W02", "malformed", "an undecodable message is sent to the scheduler")
        n = m.cls.name
        self.checked("to scheduler: " + n)
        if n == "TaskResult":
            t = self.names.get(m.f["task_id"], m.f["task_id"])
            s = m.f["status"].name
            if s == "Canceled":
                if self.discharge(vm, "canceled", t):
                    if mon["st"][t] == "proc":
                        mon["st"][t] = "done"
                else:
                    self.bad("W01", "canceled", f"Canceled is reported for {describe(t)} without cause")
            elif s == "NotFound":
                if not self.discharge(vm, "notfound", m.f["task_id"]):
                    self.bad("W01 P03", "notfound", f"NotFound is reported for {describe(t)}, which the worker has")
            elif not self.discharge(vm, "result", t, s, m.f["result"], m.f["duration"]):
                self.bad("W01 W04", "result", f"{s} of {describe(t)} is reported without cause (status, payload or task not as the processor said)")
        elif n == "BalanceResponse":
            e = next((e for e in mon["exp"] if e[1] == "balance"), None)
            ids = [self.names.get(x) for x in m.f["task_ids"].x]
            if e is None:
                return self.bad("W01 P03 W11", "balance", "a rebalancing answer is sent without request")
            self.discharge(vm, *e[1:])
            if len(set(ids)) != len(ids) or len(ids) > e[2]:
                self.bad("W01 P03 W11", "balance", f"{len(ids)} tasks are handed back, {e[2]} were requested")
            self.checked("rebalancing answer compared")
            if len(ids) < min(e[2], len(mon["order"])):
                self.bad("W11", "few", f"{len(ids)} tasks are handed back, {e[2]} were requested and {len(mon['order'])} wait")
            for t in ids:
                if mon["st"].get(t) != "held":
                    self.bad("W01 P03 W11", "balance", f"{t} is handed back although it is not waiting")
                else:
                    mon["st"][t] = "back"
                    mon["order"] = tuple(x for x in mon["order"] if x != t)
        elif n == "FunctionRequest":
            f = m.f["function_id"]
            if m.f["type"].name != "Request" or not self.discharge(vm, "ask", f):
                self.bad("W06", "ask", f"a function request ({m.f['type'].name}) is sent without cause")
            else:
                mon["asked"] += (f,)
        elif n == "Heartbeat":
            if mon["out"]:
                self.bad("W08", "doubled", "a heartbeat is sent while the previous one is not answered")
            mon["out"] = True
            mon["slept"] = vm.st.strands.index(vm.cur) if vm.cur in vm.st.strands else None
            self.discharge(vm, "heartbeat", "timer")
            q = m.f["queued_tasks"]
            if q != len(mon["order"]):
                self.bad("W09", "queued", f"the heartbeat says {q} waiting tasks, there are {len(mon['order'])}")
            g = mon["gen"]
            run = g is not None and g[2] is not None
            if m.f["has_task"] is not run:
                self.bad("W09", "has-task", f"the heartbeat says has_task={m.f['has_task']}")
            self.reported(vm, m.f)
        elif n == "DisconnectRequest":
            if not mon["over"]:
                self.bad("W07 W02 W08", "disconnect", "the worker says good-bye without cause")
            ident = mon["ext"].f["options"].x.get(5)
            if m.f["worker"] != ident:
                self.bad("W07", "disconnect", "the worker says good-bye with another identity")
            mon["left"] = True
        else:
            self.bad("W02", "unexpected", f"{n} is sent to the scheduler")

    # ------------------------------------------------------------------ end of a reaction
    def check(self, vm):
        mon = vm.st.mon
        if vm.st.ready:
            return
        for k, p in (("ext", "W02"), ("int", "W02")):
            if self.unread(mon[k]) and not mon["end"]:
                self.end_bad(p, "stuck", k, "a delivered message is not consumed: the receive loop is stuck")
        if mon["over"] and not mon["end"]:
            self.end_bad({"silent": "W08 W07", "signal": "W07 K02"}.get(mon["over"], "W07"), "goes-on", mon["over"],
                         "the worker goes on although " + {"silent": "its scheduler was silent for too long", "signal": "it was interrupted",
                                                            "loops": "one of its loops failed"}[mon["over"]])
        if mon["end"]:
            mon["exp"] = ()
        self.settle(vm)
        mon["cur"] = None
        mon["beatnow"] = mon["beatsent"] = False
        mon["rclk"] = frozenset()
        g = mon["gen"]
        if not mon["end"] and g is not None and g[1] == "idle" and mon["order"]:
            self.end_bad("W01 W03 P03", "stalled", "processor", f"{mon['order'][0]} waits although the processor is idle")
        if not mon["end"] and g is None and not mon["over"]:
            self.end_bad("W04 W01", "no-processor", "processor", "the worker has no processor any more")

    def after_strand(self, vm, s):
        mon = vm.st.mon
        if s.name == "main" and s.status in ("done", "dead") and not mon["end"]:
            if s.status == "done" and not mon["over"]:
                self.alarm("W02", "ended", "main", "the worker ends without cause", ())
            self.ended(vm)
        return True

    def ended(self, vm):
        mon = vm.st.mon
        mon["end"] = True
        if mon["procs"]:
            self.end_bad("W07", "left-running", "processor", f"the worker ends ({mon['over']}) and leaves its processor running")
        if not mon["left"]:
            self.end_bad("W07", "no-goodbye", "disconnect", f"the worker ends ({mon['over']}) without saying good-bye to the scheduler")
        for k, what in (("ext", "to the scheduler"), ("int", "to the processor")):
            if mon[k] is not None and not mon[k].f["closed"] and not mon[k].f["context"].f["closed"]:
                self.end_bad("W07", "socket", k, f"the worker ends ({mon['over']}) without closing its socket {what}")
        if mon["path"] is not None and not mon["removed"]:
            self.end_bad("W07", "file", "socket file", f"the worker ends ({mon['over']}) without removing its socket file")
        mon["exp"] = mon["opt"] = ()
        for x in vm.st.strands:
            if x.status not in ("done", "dead"):
                x.status = "done"
        vm.st.ready.clear()
        for k in list(mon):
            if k not in ("end", "exp", "opt", "over"):
                mon[k] = None

    def handling(self, vm):
        return vm.st.mon["cur"] in ("ext", "int")

    def died(self, vm, s, err):
        mon = vm.st.mon
        if err.cls.issub(vm.T["CancelledError"]):
            return
        if s.name == "main":
            if not mon["over"]:
                self.crashed(vm, s, err, "the worker")
            else:
                props = "W07"
                self.alarm(props, "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                           f"{exc_text(err)} while the worker stops: {site_text(err.tb)}", err.tb)
            if not mon["end"]:
                self.ended(vm)
            return
        if err.cls.issub(vm.T["TimeoutError"]) and mon["over"] == "silent":
            return
        if not mon["over"]:
            if err.cls.issub(vm.T["TimeoutError"]):
                self.alarm("W08", "too-early", construct_of(err.tb, s.name), "the worker gives up although the death timeout has not passed "
                           "since it last heard of its scheduler: " + site_text(err.tb), err.tb)
            self.crashed(vm, s, err, "the worker's loops")
            # go on: whatever stopped the loops, the clean-up has to follow
            mon["over"] = "loops"
            mon["exp"] = ()

    # ------------------------------------------------------------------ clocks
    def clock(self, vm, name):
        v = super().clock(vm, name)
        mon = vm.st.mon
        if mon["cur"] == "start" or mon["beatnow"]:
            mon["seen"] = mon["seen"] | {v}
        self.read_clock(vm, v)
        return v

    def read_clock(self, vm, v):
        mon = vm.st.mon
        if mon.get("rclk") is None:
            return
        mon["rclk"] = mon["rclk"] | {v}
        if mon["beatsent"]:
            mon["sent"] = mon["sent"] | {v}
        if mon["beatnow"]:
            mon["trip"] = (mon["trip"][0], mon["trip"][1] | {v})

    # ------------------------------------------------------------------ what a heartbeat reports
    def query(self, vm, name, args):
        if name == "reading":
            kind, pid, t = args
            return TERM("reading", kind, "agent" if pid is None or pid == ATOM("+pid", "int") else pid, vm.unk(t))
        return super().query(vm, name, args)

    def reported(self, vm, f):
        mon = vm.st.mon
        g = mon["gen"]
        self.checked("heartbeat compared")
        for who, pid in (("agent", "agent"), ("worker", g[0] if g is not None else None)):
            for kind, name, c in (("cpu", "CPU load", 0.01), ("rss", "memory", 1)):
                v = f[f"{who}_{kind}"]
                r = ratio(v)
                if r is not None and len(r) == 1 and next(iter(r)).k == "unk":
                    continue
                x = next(iter(r)) if r is not None and len(r) == 1 else None
                if x is None or x.k != "term" or x.a[:3] != ("reading", kind, pid):
                    self.bad("W09", "figure", f"the heartbeat gives {describe(v)} as the {name} of the {'agent' if who == 'agent' else 'processor'}")
                elif abs(r[x] - c) > 1e-9:
                    self.bad("W09", "figure", f"the heartbeat gives the {name} of the {'agent' if who == 'agent' else 'processor'} scaled by {r[x]:g}")
        v = f["latency_us"]
        if not self.half_trip(mon["trip"], v):
            self.bad("W09", "latency", f"the heartbeat gives {describe(v)} as latency, which is not half of the last round trip in microseconds")
        up = g is not None and g[1] not in ("starting", "announced")
        if f["initialized"] is not up:
            self.bad("W09", "initialized", f"the heartbeat says initialized={describe(f['initialized'])} although the processor has {'' if up else 'not '}announced itself")
        if up and f["task_lock"] is not (g[2] is not None):
            self.bad("W09", "lock", f"the heartbeat says task_lock={describe(f['task_lock'])} although the processor is {'busy' if g[2] is not None else 'idle'}")
        mon["sent"] = mon["rclk"]
        mon["beatsent"] = True

    @classmethod
    def half_trip(cls, trip, v):
        if trip is None:
            return v == 0 and type(v) in (int, float)
        c = cls.trips(trip, v)
        return c is not None and abs(c - 0.0005) < 1e-9

    @staticmethod
    def trips(trip, v):
        """v as a multiple of the last round trip in nanoseconds"""
        r = ratio(v)
        if r is None:
            return None
        r = dict(r)
        c = r.pop(TRIP, 0.0) + r.pop(TRIP_S, 0.0) * 1e9
        for s, k in list(r.items()):
            if s in trip[1]:
                e = [x for x, y in r.items() if abs(y + k) < 1e-12 and x in trip[0] and x.a[1:] == s.a[1:]]
                if len(r) != 2 or not e:
                    return None
                c += k * (1 if s.a[1] == "int" else 1e9)
                r.clear()
                break
        return None if r else c

    def widened(self, vm, o, k, v):
        trip = vm.st.mon.get("trip")
        if trip is not None and type(v) is Sym:
            r = ratio(v)
            if r is not None and len(r) == 2:
                a = [s for s in r if s in trip[1]]
                b = [s for s in r if s in trip[0]]
                if len(a) == 1 and len(b) == 1 and a != b and abs(r[a[0]] + r[b[0]]) < 1e-12 and a[0].a[1:] == b[0].a[1:]:
                    return mk_lin({TRIP if a[0].a[1] == "int" else TRIP_S: r[a[0]]}, 0)
        return super().widened(vm, o, k, v)

    @staticmethod
    def elapsed(key, op_, bound):
        """a comparison of the time since a clock reading with the death timeout: (reading, longer than it)"""
        c = dict(key)
        for s, k in c.items():
            if s.k == "atom" and s.a[0] == DEATH:
                break
        else:
            return None
        rest = {x: y / -k for x, y in c.items() if x is not s}
        if sorted(rest.values()) != [-1, 1] or bound != 0:
            return None
        if -k < 0:
            op_ = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op_, op_)
        since = [x for x, y in rest.items() if y == -1][0]
        return since, op_ in (">", ">=")

    def force_rel(self, vm, key, op_, bound):
        trip = vm.st.mon.get("trip")
        if trip is not None and bound == 0:
            # an answer comes later than the question
            c = self.trips(trip, mk_lin(dict(key), 0))
            if c:
                return {"<": c < 0, "<=": c < 0, ">": c > 0, ">=": c > 0, "==": False, "!=": True}.get(op_)
        if not self.cfg.timeout:
            e = self.elapsed(key, op_, bound)
            if e is not None:
                return not e[1]
        return None

    def on_rel(self, vm, key, op_, bound):
        e = self.elapsed(key, op_, bound)
        mon = vm.st.mon
        if any(s.k == "atom" and s.a[0] == DEATH for s, _ in key):
            self.checked("period compared")
            self.clocks_compared(vm, key, "W08", "the time since the last answer")
        if e is None or e[0] not in mon["seen"]:
            return
        self.discharge(vm, "silence", "timer")
        if e[1] and not mon["over"]:
            mon["over"] = "silent"

    def signal(self, sig):
        def act(vm):
            m = vm.st.mon
            m["over"] = m["over"] or "signal"
            self.checked(f"signal {sig}")
            try:
                vm.call(*m["signals"][sig])
            except GuestError as e:
                for p in ("W07", "K02"):
                    self.alarm(p, "handler", construct_of(e.obj.tb, "handler") + " " + e.obj.cls.name, f"{exc_text(e.obj)} escapes from the handler of signal {sig}: "
                               + site_text(e.obj.tb), e.obj.tb)
                self.stop()

        return act

    # ------------------------------------------------------------------ environment
    def env(self, vm):
        c = self.cfg
        mon = vm.st.mon
        if mon["end"] or mon["ext"] is None or mon["int"] is None:
            return []
        if self.unread(mon["ext"]) or self.unread(mon["int"]):
            return []
        msgs = self.messages(vm)
        acts = []
        for label, act in msgs:
            acts.append((label, act))
        if c.burst:
            for label, act in msgs:
                def pair(vm, act=act):
                    act(vm)
                    rest = self.messages(vm)
                    if rest:
                        k = vm.choose(len(rest), "then")
                        self.explorer.label += " + " + rest[k][0]
                        rest[k][1](vm)

                acts.append((label, pair))
        if c.sigint:
            for sig in (2, 15):
                if sig in mon["signals"]:
                    acts.append((f"signal {sig}", self.signal(sig)))
                elif c.start != "direct" and c.n_workers == 1:
                    self.alarm("K02", "unhandled", str(sig), f"signal {sig} ends the worker without any clean-up")
        for owner, i in self.timers(vm):
            if "Heartbeat" in owner:
                if c.heartbeat:
                    def act(vm, i=i):
                        if not vm.st.mon["out"] and vm.st.mon["procs"]:
                            self.expect(vm, "W08", "heartbeat", "timer")
                        vm.wake(vm.st.strands[i])

                    acts.append(("heartbeat timer", act))
            elif "Timeout" in owner:
                if c.timeout:
                    def act(vm, i=i):
                        self.expect(vm, "W08", "silence", "timer")
                        vm.wake(vm.st.strands[i])

                    acts.append(("timeout timer", act))
            else:
                acts.append((f"timer {owner}", self.fire(i)))
        return acts

    def messages(self, vm):
        c = self.cfg
        mon = vm.st.mon
        st, can = mon["st"], mon["can"]
        out = []

        def ext(label, key, upd=None):
            def act(vm):
                if upd is not None:
                    upd(vm.st.mon)
                self.send_ext(key)(vm)

            out.append((label, act))

        new = [t for t in c.tasks if st[t] == "new"]
        for t in new[:1] if not c.functions else new:
            def upd(m, t=t):
                m["st"][t] = "sent"

            ext(f"task {t}", ("task", t), upd)
        for t in c.tasks:
            if st[t] == "back" and c.resend and mon["hand"][t] < 1:
                def upd(m, t=t):
                    m["st"][t] = "sent"
                    m["hand"][t] += 1

                ext(f"task {t} again", ("task", t), upd)
            if st[t] not in ("new",) and can[t] < c.cancels:
                def upd(m, t=t):
                    m["can"][t] += 1

                ext(f"cancel {t}", ("cancel", t), upd)
        if c.unknown_cancel:
            ext("cancel of an unknown task", ("cancel", "?"))
        if c.balance:
            for n in range(1, len(c.tasks) + 1):
                ext(f"hand back {n}", ("balance", n))
        if c.heartbeat and mon["out"] is True:
            
            def upd(m):
                m["out"] = "answered"

            ext("heartbeat echo", "echo", upd)
        elif c.stray and not mon["strayed"]:
            def upd(m):
                m["strayed"] = True

            ext("heartbeat echo without a heartbeat", "echo", upd)
        for f in sorted(set(mon["asked"]), key=repr):
            def upd(m, f=f):
                a = list(m["asked"])
                a.remove(f)
                m["asked"] = tuple(a)

            ext(f"function {f!r}", ("function", f), upd)
            if c.missing:
                ext(f"no function {f!r}", ("missing", f), upd)
        if c.delete:
            for f in self.funs:
                ext(f"drop {f!r}", ("delete", f))
        g = mon["gen"]
        if g is not None:
            if g[1] == "starting":
                def act(vm):
                    m = vm.st.mon
                    m["stale"] = None
                    m["gen"] = (m["gen"][0], "announced", None)
                    self.send_int(vm, "ready")

                out.append(("processor is ready", act))
            if g[1] == "got" and c.load:
                def act(vm):
                    m = vm.st.mon
                    g = m["gen"]
                    m["gen"] = (g[0], "ask", g[2])
                    self.send_int(vm, ("ask", self.fn(g[2])))

                out.append((f"processor asks for the function of {g[2]}", act))
            if g[1] in ("got", "busy"):
                for s in ("Success", "Failed") if c.failing else ("Success",):
                    def act(vm, s=s):
                        g = vm.st.mon["gen"]
                        vm.st.mon["gen"] = (g[0], "reporting", g[2])
                        self.send_int(vm, ("result", g[2], s))

                    out.append((f"processor reports {s} of {g[2]}", act))
        if mon["stale"] is not None:
            def act(vm):
                m = vm.st.mon
                t = m["stale"]
                m["stale"] = None
                self.send_int(vm, ("result", t, "Success"))

            out.append((f"late result of {mon['stale']} of the stopped processor", act))
        return out

    def label(self, vm):
        mon = vm.st.mon
        if mon["end"]:
            return frozenset()
        return frozenset(t for t, s in mon["st"].items() if s in ("sent", "held", "proc"))

    def conclude(self):
        ex = self.explorer
        if not ex.complete or self.props is not None and "W01" not in self.props:
            return
        for t in self.cfg.tasks:
            for n in ex.cannot_reach(lambda x: t not in x):
                ex.current = n
                ex.label = None
                self.alarm("W01", "lost", t, f"{t} can never be answered any more", ())
                break
