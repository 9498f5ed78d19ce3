"""The cluster process and its workers, and the combined object: what reaches the processes when they are told to stop."""
from __future__ import annotations

from . import options
from ..libmods import start_strand
from .base import *  # noqa: F401,F403
from .base import ATOM, ID, MonitorWorld, GuestError, AnalysisError, construct_of, describe, exc_text, site_text

NAMES = {2: "SIGINT", 15: "SIGTERM"}


class Cfg:
    start = "cli"
    n_workers = 3
    signals = 2             # signals that arrive
    which = 0

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


class ClusterWorld(options.WorkerStart, MonitorWorld):
    """a cluster that runs its workers as processes of their own; workers may end at any time"""

    crash_props = "K02"

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def setup(self, vm):
        self.start(vm)
        mon = vm.st.mon
        c = self.cfg
        mon["probe"] = None
        mon["signals"] = {}
        mon["workers"] = ()
        mon["alive"] = frozenset()
        mon["told"] = frozenset()
        mon["count"] = 0
        mon["stops"] = frozenset()
        mon["starts"] = ()
        mon["phase"] = "launch"
        mon["handling"] = None
        self.given = self.options()
        if c.start == "cli":
            fn = vm.getattr(vm.import_module("scaled.entry_points.cluster"), "main")
        else:
            options.combination(vm, self.given)
            ps = [p for p in mon["starts"] if options.is_a(vm, p, "scaled.cluster.cluster", "Cluster")]
            if len(ps) != 1:
                self.alarm("K02", "cluster", "SchedulerClusterCombo", f"the combined object starts {len(ps)} clusters")
                self.stop()
            fn = vm.getattr(ps[0], "run")
        mon["phase"] = None
        mon["starts"] = ()
        self.main(vm, "cluster", fn)
        self.run(vm)
        mon = vm.st.mon
        if len(mon["workers"]) != c.n_workers:
            if mon["workers"] or mon["stops"]:
                self.alarm("K02", "workers", "cluster", f"the cluster runs {len(mon['workers'])} worker processes instead of {c.n_workers}")
                self.stop()
            raise AnalysisError(f"the cluster runs {len(mon['workers'])} worker processes instead of {c.n_workers}")
        if self.cluster(vm) is None or self.cluster(vm).status != "wait":
            self.alarm("K02", "ended", "cluster", "the cluster ends although its workers run")
            self.stop()
        self.probe(vm)

    def probe(self, vm):
        """the signals on which a worker ends its loops (that it does is decided by the analyses of the worker)"""
        mon = vm.st.mon
        w = mon["workers"][0]
        mon["probe"] = ()
        s = self.main(vm, "probe", vm.getattr(w, "run"))
        self.run(vm)
        mon = vm.st.mon
        s = next((x for x in vm.st.strands if x.name == "probe"), None)
        if s is not None and s.status == "dead":
            raise AnalysisError("a worker fails when it is started: " + exc_text(s.error))
        mon["stops"] = frozenset(mon["probe"])
        mon["probe"] = None
        for x in vm.st.strands:
            if x.name != "cluster":
                x.status = "done"
        vm.st.ready.clear()

    def emit(self, vm, kind, obj, args):
        mon = vm.st.mon
        r = self.launching(vm, kind, obj, args)
        if r is not None:
            return r[0]
        if mon["probe"] is not None:
            if kind in ("add_signal_handler", "signal"):
                sig = args[0] if kind == "add_signal_handler" else obj
                mon["probe"] += (getattr(sig, "value", sig),)
            elif kind == "process_start":
                return ID("pid", "processor")
            return None
        if kind == "process_start":
            mon["workers"] += (obj,)
            pid = ID("pid", f"w{len(mon['workers'])}")
            mon["alive"] = mon["alive"] | {pid}
            return pid
        if kind == "process_exited":
            return vm.getattr(obj, "pid") not in mon["alive"]
        if kind == "signal":
            sig = getattr(obj, "value", obj)
            mon["signals"] = {**mon["signals"], sig: args[0]}
        elif kind in ("kill", "process_terminate", "process_kill"):
            pid = obj if kind == "kill" else vm.getattr(obj, "pid")
            sig = getattr(args[0], "value", args[0]) if kind == "kill" else {"process_terminate": 15, "process_kill": 9}[kind]
            if pid not in mon["alive"]:
                return "gone"
            self.checked("worker signalled")
            if sig in mon["stops"]:
                mon["told"] = mon["told"] | {pid}
            else:
                self.bad("K02", "signal", f"a worker is sent signal {sig}, on which it does not end its loops")
        return None

    @staticmethod
    def cluster(vm):
        return next((s for s in vm.st.strands if s.name == "cluster"), None)

    def env(self, vm):
        mon = vm.st.mon
        s = self.cluster(vm)
        acts = []
        if s is None or s.status != "wait":
            return acts
        h = self.handler(vm)
        if h is not None and h.status == "wait" and h.timer:
            acts.append(("the handler's wait ends", lambda vm: vm.wake(self.handler(vm))))
        for pid in sorted(mon["alive"], key=repr):
            def ends(vm, pid=pid):
                m = vm.st.mon
                m["alive"] = m["alive"] - {pid}
                m["told"] = m["told"] - {pid}
                vm.wake(self.handler(vm) or self.cluster(vm))

            acts.append((f"{describe(pid)} ends", ends))
        if mon["count"] < self.cfg.signals and not mon["handling"]:
            for sig in (2, 15):
                def arrives(vm, sig=sig):
                    m = vm.st.mon
                    m["count"] += 1
                    self.checked(NAMES[sig])
                    h = m["signals"].get(sig)
                    if h is None:
                        self.alarm("K02", "unhandled", NAMES[sig], f"{NAMES[sig]} ends the cluster and leaves its workers running")
                        self.stop()
                    m["handling"] = sig
                    t = vm.spawn("handler", None)
                    start_strand(vm, t, h, (sig, None))

                acts.append((NAMES[sig], arrives))
        return acts

    @staticmethod
    def handler(vm):
        return next((s for s in vm.st.strands if s.name == "handler" and s.status != "done"), None)

    def check(self, vm):
        mon = vm.st.mon
        if mon["handling"] and self.handler(vm) is None:
            for pid in sorted(mon["alive"] - mon["told"], key=repr):
                self.explorer.alarm_end(self, "K02", "not-told", "worker", f"a worker is not told to stop when the cluster receives {NAMES[mon['handling']]}")
                break
            mon["handling"] = None
        if mon["handling"]:
            return
        s = self.cluster(vm)
        if s is not None and s.status == "wait" and not mon["alive"]:
            vm.wake(s)
            self.explorer.run_ready()
            s = self.cluster(vm)
            if s is not None and s.status == "wait":
                self.end_bad("K02", "goes-on", "cluster", "the cluster goes on although all its workers have ended")

    def died(self, vm, s, err):
        if s.name == "probe" or vm.st.mon["probe"] is not None:
            return
        if s.name == "handler":
            sig = NAMES[vm.st.mon["handling"]]
            self.alarm("K02", "handler", construct_of(err.tb, "handler") + " " + err.cls.name, f"{exc_text(err)} escapes from the handler of {sig}: " + site_text(err.tb), err.tb)
            self.stop()
        self.crashed(vm, s, err, "the cluster")


class ComboWorld(options.WorkerStart, MonitorWorld):
    """the combined object is created and shut down"""

    crash_props = "K02"

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def setup(self, vm):
        self.start(vm)
        mon = vm.st.mon
        mon["up"] = ()
        mon["down"] = ()
        self.given = self.options()
        c = options.combination(vm, self.given)
        self.checked("processes started")
        ups = vm.st.mon["up"]
        for cls, what in ((("scaled.cluster.scheduler", "SchedulerProcess"), "scheduler"), (("scaled.cluster.cluster", "Cluster"), "cluster")):
            if sum(1 for p in ups if options.is_a(vm, p, *cls)) != 1:
                self.alarm("K02", "started", what, f"the combined object does not start one {what}")
        for again in ("", " a second time"):
            vm.st.mon["down"] = ()
            try:
                vm.call(vm.getattr(c, "shutdown"), ())
            except GuestError as e:
                self.alarm("K02", "shutdown", construct_of(e.obj.tb, "shutdown") + " " + e.obj.cls.name, f"{exc_text(e.obj)} when the combined object is shut down{again}: "
                           + site_text(e.obj.tb), e.obj.tb)
                return
            if again:
                break
            for p in ups:
                self.checked("process stopped")
                if not any(p is x for x in vm.st.mon["down"]):
                    self.alarm("K02", "left-running", p.cls.name, f"shutting down the combined object leaves its {p.cls.name} running")
        # a second one is given up without being shut down
        vm.st.mon["up"] = ()
        vm.st.mon["down"] = ()
        c = options.combination(vm, self.given)
        try:
            vm.call(vm.getattr(c, "__del__"), ())
        except GuestError as e:
            self.alarm("K02", "given-up", "combination", f"{exc_text(e.obj)} when the combined object is given up: {site_text(e.obj.tb)}", e.obj.tb)
        for p in vm.st.mon["up"]:
            if not any(p is x for x in vm.st.mon["down"]):
                self.alarm("K02", "given-up", p.cls.name, f"giving up the combined object leaves its {p.cls.name} running")

    def emit(self, vm, kind, obj, args):
        mon = vm.st.mon
        if kind == "process_start":
            mon["up"] += (obj,)
            return ID("pid", f"p{len(mon['up'])}")
        if kind in ("process_terminate", "process_kill"):
            if any(obj is x for x in mon["up"]):
                if kind == "process_kill" and options.is_a(vm, obj, "scaled.cluster.cluster", "Cluster"):
                    self.bad("K02", "killed", "the cluster is killed and cannot stop its workers")
                mon["down"] += (obj,)
        elif kind == "kill":
            for p in mon["up"]:
                if vm.getattr(p, "pid") == obj:
                    mon["down"] += (p,)
        elif kind == "process_exited":
            return any(obj is x for x in mon["down"])
        return None

    def env(self, vm):
        return []


class LaunchWorld(options.WorkerStart, MonitorWorld):
    """the cluster starts as many workers as asked for, each an object of its own"""

    crash_props = "K01"

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def setup(self, vm):
        self.start(vm)
        vm.st.mon["starts"] = ()
        self.worker_main(vm)

    def emit(self, vm, kind, obj, args):
        r = self.launching(vm, kind, obj, args)
        return None if r is None else r[0]

    def env(self, vm):
        return []
