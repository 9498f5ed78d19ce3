"""The processor process: its main thread and the cache cleaner thread, against a conforming agent and arbitrary user code.

Threads are interleaved at every access to a shared container, attribute or lock.
"""
from __future__ import annotations

from .base import *  # noqa: F401,F403
from . import options
from .base import BaseWorld, MonitorWorld, Messages, ID, ATOM, MISSING, Sym, Obj, TERM, Cut, GuestError, describe, exc_text, construct_of, site_text, \
    AnalysisError


class Cfg:
    tasks = {"t1": "f"}
    args = {}               # task -> number of arguments (default 2)
    bad_function = False    # functions may fail to load
    bad_argument = False
    raising = False         # functions may raise
    bad_result = False      # results may fail to be serialized
    repeat = 1              # times each task may be given again
    delete = False
    twice = False           # a function may arrive without having been asked for (answer to an earlier processor)
    cleaner = True          # the cleaner thread runs
    start = "direct"        # how the processor is started: direct, cli (through the cluster program), combo (through the combined object)
    n_workers = 3
    which = 0
    idle = True             # functions may be idle for longer than the retention time

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


def tid(t):
    return ID("task", t)


class ProcessorWorld(options.WorkerStart, MonitorWorld):
    crash_props = "W05"
    int_cap = 3
    TEXT = {"answer": "{2} is neither answered nor is its function asked for", "result": "{2} is not answered although its function has arrived"}

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.names = {}

    def prepare(self, vm):
        M = self.M = Messages(vm)
        ns = M.ns
        c = self.cfg
        AT = ns["ArgumentType"].members
        FR = ns["FunctionRequestType"].members
        FA = ns["FunctionResponseType"].members
        self.fr = {}
        self.fn = {t: ID("function", f) for t, f in c.tasks.items()}
        self.funs = sorted(set(self.fn.values()), key=repr)
        self.nargs = {t: c.args.get(t, 2) for t in c.tasks}
        for t in c.tasks:
            self.names[tid(t)] = t
            self.fr["task", t] = M.make("Task", tid(t), self.fn[t], vm.list([vm.call(ns["Argument"], (AT["Data"], ID("arg", f"{t}.{i}")))
                                                                              for i in range(self.nargs[t])]))
        for f in self.funs:
            self.fr["function", f] = M.make("FunctionResponse", FA["OK"], f, ID("fname", f.a[1]), ID("content", f.a[1]))
            self.fr["delete", f] = M.make("FunctionRequest", FR["Delete"], f, b"", b"")
        vm.preempt = c.cleaner

    def setup(self, vm):
        self.start(vm)
        mon = vm.st.mon
        c = self.cfg
        mon["given"] = {t: 0 for t in c.tasks}
        mon["cur"] = None          # task in hand
        mon["state"] = None        # given / asked / loading
        mon["cause"] = None        # why the task in hand must fail
        mon["ran"] = None          # the function was called: "ok" once it has returned
        mon["ready"] = False
        mon["sock"] = None
        mon["over"] = False
        mon["late"] = False
        mon["have"] = frozenset()     # functions loaded and not dropped on request
        mon["gone"] = frozenset()     # functions dropped on request and not loaded since
        p = self.processor(vm) if c.start == "direct" else self.given_processor(vm)
        self.main(vm, "main", vm.getattr(p, "run"))
        while vm.st.strands[0].status == "ready":
            self.explorer.step_strand(0)
        self.check(vm)

    def processor(self, vm):
        m = vm.import_module("scaled.worker.agent.processor.processor")
        zc = vm.import_module("scaled.utility.zmq_config").ns
        addr = vm.call(zc["ZMQConfig"], (zc["ZMQType"].members["ipc"],), {"host": "/tmp/x"})
        ser = vm.import_module("scaled.protocol.python.serializer.default").ns
        return vm.call(vm.getattr(m, "Processor"), (), dict(
            event_loop="builtin", address=addr, garbage_collect_interval_seconds=ATOM("gc", "int"),
            trim_memory_threshold_bytes=ATOM("trim", "int"), serializer=vm.call(ser["DefaultSerializer"], ()),
            function_retention_seconds=ATOM("retention", "int")))

    def given_processor(self, vm):
        """the processor that a worker of the cluster starts"""
        c = self.cfg
        mon = vm.st.mon
        mon["phase"] = None
        mon["found"] = None
        mon["used"] = frozenset()     # options that were compared with something since they last took effect
        mon["own"] = False
        preempt, vm.preempt = vm.preempt, False
        fn = self.worker_main(vm)
        mon = vm.st.mon
        mon["phase"] = "worker"
        self.main(vm, "worker", fn)
        BaseWorld.run(self, vm)
        mon = vm.st.mon
        vm.preempt = preempt
        if mon["found"] is None:
            raise AnalysisError("the worker starts no processor")
        mon["phase"] = None
        p, mon["found"] = mon["found"], None
        for x in vm.st.strands:
            x.status = "done"
        vm.st.strands.clear()
        vm.st.ready.clear()
        return p

    # ------------------------------------------------------------------ user code
    def on_unpickle(self, vm, v):
        if type(v) is Sym and v.k == "id":
            mon = vm.st.mon
            c = self.cfg
            t = mon["cur"]
            if v.a[0] == "content":
                if c.bad_function and vm.choose(2, "the function loads") == 1:
                    mon["cause"] = "load"
                    self.user_error(vm)
                return ATOM(f"call.{v.a[1]}", "callable")
            if v.a[0] == "arg":
                if c.bad_argument and vm.choose(2, f"argument {v.a[1]} loads") == 1:
                    mon["cause"] = "argument"
                    self.user_error(vm)
                return ATOM(f"value.{v.a[1]}", "obj")
        return MISSING

    def on_pickle(self, vm, v):
        mon = vm.st.mon
        if type(v) is Sym and v.k == "atom" and v.a[0].startswith("result."):
            if self.cfg.bad_result and vm.choose(2, "the result can be serialized") == 1:
                mon["cause"] = "result"
                self.user_error(vm)
        if type(v) is Obj and v.cls.issub(vm.T["BaseException"]) and (self.cfg.raising or self.cfg.bad_result) and \
                any(type(a) is Sym and a.k == "atom" and a.a[0] == "user" for a in v.f.get("args", ())):
            if vm.choose(2, "the exception can be serialized") == 1:
                vm.throw("TypeError", "cannot pickle")
        return MISSING

    KINDS = ("ValueError", "SystemExit", "GeneratorExit", "OSError")

    def user_error(self, vm, kinds=("ValueError", "AttributeError")):
        k = vm.choose(len(kinds), "raises " + "/".join(kinds)) if len(kinds) > 1 else 0
        vm.throw(kinds[k], ATOM("user", "str"))

    def call_sym(self, vm, f, args, kwargs):
        if f.k == "atom" and f.a[0].startswith("cdll."):
            if f.a[0] == "cdll.malloc_trim" and self.cfg.start != "direct":
                self.effect(vm, "trim", "trim_memory_threshold_bytes", "memory is trimmed")
            return 0 if f.a[0] != "cdll.LoadLibrary" else ATOM("cdll", "obj")
        if f.k == "atom" and f.a[0].startswith("call."):
            mon = vm.st.mon
            t = mon["cur"]
            self.checked("user function called")
            if t is None:
                self.bad("W05 W06", "uncalled", "a user function is called although no task is in hand")
                return vm.unk()
            if ATOM("call." + self.fn[t].a[1], "callable") != f:
                self.bad("W06", "function", f"{t} is executed with the function {f!r} instead of {describe(self.fn[t])}")
            want = tuple(ATOM(f"value.{t}.{i}", "obj") for i in range(self.nargs[t]))
            if tuple(args) != want or kwargs:
                self.bad("W06", "arguments", f"{t} is executed with arguments {args!r} {kwargs!r} instead of {want!r}")
            if mon["ran"]:
                self.bad("W06 W05", "again", f"the function of {t} is called a second time")
            mon["ran"] = "called"
            if self.fn[t] in mon["gone"] and mon["state"] == "given":
                self.bad("P03 W06", "delete-ignored", f"{t} is executed with {describe(self.fn[t])} that the scheduler has asked to drop")
            if self.cfg.start == "direct" and not self.cfg.cleaner:
                mon["have"] = mon["have"] | {self.fn[t]}
            if self.cfg.raising:
                kinds = self.KINDS
                k = vm.choose(len(kinds) + 1, "returns/" + "/".join(kinds))
                if k:
                    mon["cause"] = "raised"
                    vm.throw(kinds[k - 1], ATOM("user", "str"))
            mon["ran"] = "ok"
            if self.cfg.start != "direct":
                mon["have"] = mon["have"] | {self.fn[t]}
                if self.cfg.start == "combo" and not mon["own"]:
                    self.alarm("K01", "serializer", "serializer", "a function is loaded without the serializer asked for")
            return ATOM("result." + t, "obj")
        return MISSING

    # ------------------------------------------------------------------ boundary
    def emit(self, vm, kind, obj, args):
        mon = vm.st.mon
        if self.cfg.start != "direct":
            r = self.launching(vm, kind, obj, args)
            if r is not None:
                return r[0]
            if mon["phase"] == "worker":
                if kind == "process_start":
                    pid = self.own_process(vm, obj, "worker")
                    if pid is not None:
                        return pid
                    if obj.cls.name != "Processor":
                        raise AnalysisError("the worker starts an unexpected process " + obj.cls.name)
                    mon["found"] = obj
                return ID("pid", "processor")
            if kind == "gc":
                self.effect(vm, "gc", "garbage_collect_interval_seconds", "garbage is collected")
            elif kind == "own_serializer":
                mon["own"] = True
                self.checked("option serializer")
        if kind in ("connect", "send", "recv", "use", "close", "context_destroy"):
            self.checked("socket used")
            if vm.st.strands.index(vm.cur) != 0:
                self.bad("P06", "thread", f"the socket is used ({kind}) by a thread that is not the processor's main thread")
        if kind == "connect":
            mon["sock"] = obj
        elif kind == "send":
            self.sent(vm, tuple(args[0].x))
        elif kind == "recv":
            m = self.M.read(tuple(args[0].x))
            if m is not None:
                getattr(self, "r_" + m.cls.name)(vm, m)
        elif kind in ("kill", "exit"):
            self.bad("W05", kind, "the processor stops itself")
        return None

    def r_Task(self, vm, m):
        mon = vm.st.mon
        mon["cur"] = t = self.names[m.f["task_id"]]
        mon["state"] = "given"
        self.checked("received Task")
        self.expect(vm, "W05 W06 P03", "answer", t)

    def r_FunctionResponse(self, vm, m):
        mon = vm.st.mon
        self.checked("received FunctionResponse")
        mon["gone"] = mon["gone"] - {m.f["function_id"]}
        if mon["state"] == "asked" and self.fn[mon["cur"]] == m.f["function_id"]:
            mon["state"] = "loading"
            self.checked("function arrived")
            self.expect(vm, "W05 W06 P03", "result", mon["cur"])

    def r_FunctionRequest(self, vm, m):
        self.checked("received FunctionRequest")
        f = m.f["function_id"]
        vm.st.mon["have"] = vm.st.mon["have"] - {f}
        if m.f["type"].name == "Delete":
            vm.st.mon["gone"] = vm.st.mon["gone"] | {f}

    # ------------------------------------------------------------------ options that take effect
    def effect(self, vm, atom, option, what):
        mon = vm.st.mon
        self.checked("option " + option)
        if atom not in mon["used"]:
            self.alarm("K01", option, option, f"{what} without regard to {option}")
        if atom != "retention":  # one round may drop several functions
            mon["used"] = mon["used"] - {atom}

    EFFECTS = ("garbage_collect_interval_seconds", "trim_memory_threshold_bytes", "function_retention_seconds")

    def conclude(self):
        if self.cfg.start == "direct" or not self.explorer.complete or self.cfg.repeat < 2 or self.explorer.alarms:
            return
        for o in self.EFFECTS:
            if not self.checks.get("option " + o):
                self.explorer.label = None
                self.alarm("K01", "no-effect", o, f"the option {o} has no effect on the processor", ())

    def on_rel(self, vm, key, op_, bound):
        if self.cfg.start == "direct" or len(key) < 2:
            return
        c = dict(key)
        for s, k in c.items():
            if s.k == "atom" and s.a[0] in ("gc", "retention", "trim"):
                rest = sorted(v for x, v in c.items() if x != s)
                if bound != 0 or rest != ([-abs(k), abs(k)] if s.a[0] != "trim" else [-k]):
                    o = {"gc": 0, "trim": 1, "retention": 2}[s.a[0]]
                    self.alarm("K01", "changed", self.EFFECTS[o], f"{self.EFFECTS[o]} is compared with something else than "
                               + ("an age" if s.a[0] != "trim" else "the memory in use"))
        for s, k in c.items():
            if s.k == "atom" and s.a[0] in ("gc", "trim", "retention") and (op_ in ("<", "<=")) == (k > 0):
                vm.st.mon["used"] = vm.st.mon["used"] | {s.a[0]}

    def sym_attr(self, vm, o, name):
        if o.k == "atom" and o.a[0] == "cdll":
            return ATOM("cdll." + name, "callable")
        return MISSING

    def sent(self, vm, frames):
        mon = vm.st.mon
        m = self.M.read(frames)
        if m is None:
            return self.bad("W05", "malformed", "an undecodable message is sent")
        n = m.cls.name
        self.checked("sent " + n)
        t = mon["cur"]
        if n == "FunctionRequest":
            if m.f["type"].name != "Request" or t is None or m.f["function_id"] != self.fn[t]:
                return self.bad("W06", "ask", f"a function request {m.f['type'].name} {describe(m.f['function_id'])} is sent without cause")
            if mon["state"] != "given":
                return self.bad("W06", "ask-again", f"the function of {t} is asked for a second time")
            self.discharge(vm, "answer", t)
            mon["state"] = "asked"
            if self.fn[t] in mon["have"]:
                if self.cfg.start != "direct":
                    self.effect(vm, "retention", "function_retention_seconds", "a function is dropped")
                else:
                    self.bad("W06", "ask-cached", f"the function of {t} is asked for although it has been loaded and nothing has dropped it")
        elif n == "TaskResult":
            if m.f["task_id"] == b"":
                if mon["ready"]:
                    self.bad("W05 W03", "ready-again", "the processor announces itself a second time")
                mon["ready"] = True
                return
            if t is None or m.f["task_id"] != tid(t):
                return self.bad("W05", "unasked", f"a result of {describe(m.f['task_id'])} is sent, which is not in hand")
            if mon["state"] == "asked":
                return self.bad("W06 W05", "early", f"a result of {t} is sent while its function is asked for")
            s = m.f["status"].name
            self.discharge(vm, "answer" if mon["state"] == "given" else "result", t)
            good = mon["cause"] is None and mon["ran"] == "ok"
            if s == "Success":
                if not good:
                    self.bad("W05", "success", f"{t} is reported successful although "
                             + {"load": "its function cannot be loaded", "argument": "an argument cannot be loaded", "raised": "it raised",
                                "result": "its result cannot be serialized", None: "it was not executed"}[mon["cause"]])
                elif m.f["result"] != TERM("pickle", ATOM("result." + t, "obj")):
                    self.bad("W05", "payload", f"the payload of {t} is not its serialized result but {describe(m.f['result'])}")
            elif s == "Failed":
                if good:
                    self.bad("W05", "failure", f"{t} is reported failed although it was executed successfully")
                elif mon["cause"] is None:
                    self.bad("W06 W05", "failure", f"{t} is reported failed although nothing of it has failed")
                else:
                    p = m.f["result"]
                    if not (type(p) is Sym and p.k == "term" and p.a[0] == "pickle" and type(p.a[1]) is tuple and p.a[1] and p.a[1][0] == "$exc"):
                        self.bad("W05", "failure-payload", f"the payload of the failed {t} is not an exception: {describe(p)}")
            else:
                self.bad("W05", "status", f"{t} is reported {s}")
            mon["cur"] = mon["state"] = mon["cause"] = mon["ran"] = None
        else:
            self.bad("W05", "unexpected", f"{n} is sent to the agent")

    # ------------------------------------------------------------------ end of a reaction
    def waiting(self, vm):
        s = vm.st.strands[0]
        return s.status == "wait" and s.wait is vm.st.mon["sock"]

    def check(self, vm):
        mon = vm.st.mon
        s = vm.st.strands[0]
        if s.status == "done" and not mon["over"]:
            mon["over"] = True
            self.end_bad("W05", "ended", "main", "the processor ends although nothing asked it to")
        if mon["over"]:
            return
        if self.waiting(vm) and not mon["sock"].f["inbox"].x:
            if not mon["ready"]:
                self.end_bad("W05", "not-ready", "processor", "the processor does not announce itself")
                mon["ready"] = True
            self.settle(vm)
            if mon["cur"] is not None and mon["state"] != "asked":
                mon["cur"] = mon["state"] = mon["cause"] = mon["ran"] = None
        elif s.status == "wait" and not s.timer and all(x.status != "ready" for x in vm.st.strands):
            self.end_bad("W05 W06", "stuck", "main", "the processor waits for ever")

    def died(self, vm, s, err):
        mon = vm.st.mon
        if mon["over"] or mon.get("phase") == "worker":
            return
        if vm.st.strands.index(s) == 0:
            mon["over"] = True
            self.crashed(vm, s, err, "the processor")
            mon["exp"] = ()
        else:
            self.alarm("W06", "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                       f"{exc_text(err)} escapes from the cleaner thread: {site_text(err.tb)}", err.tb)

    def force_rel(self, vm, key, op_, bound):
        if not self.cfg.idle and any(s.k == "atom" and s.a[0] == "retention" for s, k in key):
            k = dict(key)
            a = next(s for s in k if s.k == "atom" and s.a[0] == "retention")
            if k[a] < 0:
                return op_ in ("<", "<=")
            return op_ in (">", ">=")
        return None

    # ------------------------------------------------------------------ actions
    def actions(self, vm):
        st = vm.st
        mon = st.mon
        if mon["over"]:
            return []
        acts = []
        for i, s in enumerate(st.strands):
            if i and not self.cfg.cleaner:
                continue
            if s.status == "ready":
                if i == 0:
                    acts.append(("main thread", lambda vm: self.explorer.step_strand(0)))
                else:
                    acts.append(("cleaner thread", lambda vm, i=i: self.explorer.step_strand(i)))
            elif s.status == "wait" and s.timer:
                if i == 0:
                    acts.append(("poll ends", lambda vm: self.resume(vm, 0)))
                else:
                    acts.append(("cleaner wakes", lambda vm, i=i: self.resume(vm, i)))
        if self.waiting(vm) and mon["ready"]:
            for label, key, upd in self.messages(vm):
                def act(vm, key=key, upd=upd):
                    upd(vm.st.mon)
                    s = vm.st.mon["sock"]
                    s.f["inbox"].x.append(vm.list(self.fr[key]))
                    vm.notify(s)
                    self.explorer.step_strand(0)

                acts.append((label, act))
        return acts

    def resume(self, vm, i):
        vm.wake(vm.st.strands[i])
        self.explorer.step_strand(i)

    def messages(self, vm):
        c = self.cfg
        mon = vm.st.mon
        out = []
        if mon["cur"] is None:
            for t in c.tasks:
                if mon["given"][t] < c.repeat:
                    def upd(m, t=t):
                        m["given"][t] += 1

                    out.append((f"task {t}", ("task", t), upd))
        if mon["state"] == "asked":
            out.append(("function", ("function", self.fn[mon["cur"]]), lambda m: None))
        if c.twice and not mon["late"]:
            def late(m):
                m["late"] = True

            for f in self.funs:
                out.append((f"late function {f!r}", ("function", f), late))
        if c.delete:
            for f in self.funs:
                out.append((f"drop {f!r}", ("delete", f), lambda m: None))
        return out
