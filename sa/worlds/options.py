"""Starting components the way users do: through the command line programs or the combined scheduler/cluster object.

Every option is given a value of its own, so that one which is lost, replaced or swapped with another is noticed where
it takes effect.
"""
from __future__ import annotations

from .base import *  # noqa: F401,F403
from .base import ATOM, AnalysisError, ID, Obj, MISSING

ADDRESS = "tcp://127.0.0.1:2345"
IO_THREADS = 7
LOOP = "uvloop"

SERIALIZER = '''
from __sa__ import emit
from scaled.protocol.python.serializer.default import DefaultSerializer


class Own(DefaultSerializer):
    def deserialize_function(self, payload):
        emit("own_serializer", "function")
        return DefaultSerializer.deserialize_function(payload)

    def deserialize_argument(self, payload):
        emit("own_serializer", "argument")
        return DefaultSerializer.deserialize_argument(payload)

    def serialize_result(self, result):
        emit("own_serializer", "result")
        return DefaultSerializer.serialize_result(result)


own = Own()
'''


def argument(vm, values, args):
    """the value of a command line argument"""
    dest, names, kw = args
    kw = kw.x
    for n in names.x if type(names) is Obj else names:
        n = n.lstrip("-")
        if n in values:
            v = values[n]
            break
    else:
        if "default" not in kw:
            raise AnalysisError(f"no value for the required argument {dest}")
        return kw["default"]
    conv = kw.get("type")
    if conv is not None and type(v) is str:
        v = vm.call(conv, (v,))
    choices = kw.get("choices")
    if choices is not None and not vm.truth(vm.contains(choices, v)):
        raise AnalysisError(f"{v!r} is not among the choices of {dest}")
    return v


def combination(vm, values):
    """the combined object; its processes are reported when they are started"""
    m = vm.import_module("scaled.cluster.combo")
    return vm.call(vm.getattr(m, "SchedulerClusterCombo"), (), dict(values))


def is_a(vm, obj, module, name):
    return obj.cls.issub(vm.getattr(vm.import_module(module), name))


def own_serializer(vm):
    from ..loader import load_source

    return load_source(vm, "own_serializer", SERIALIZER).ns["own"]


class WorkerStart:
    """mixin: starts the worker through the cluster program or the combined object and keeps its processes"""

    def options(self):
        c = self.cfg
        v = {"heartbeat_interval": ATOM("+heartbeat_interval", "int"), "function_retention_seconds": ATOM("retention", "int"),
             "death_timeout_seconds": ATOM("death_timeout_seconds", "int"), "garbage_collect_interval_seconds": ATOM("gc", "int"),
             "trim_memory_threshold_bytes": ATOM("trim", "int"), "event_loop": LOOP, "address": ADDRESS}
        if c.start == "combo":
            n = lambda x: ATOM("other " + x, "int")  # noqa: E731
            v["heartbeat_interval_seconds"] = v.pop("heartbeat_interval")
            return {**v, "n_workers": c.n_workers, "io_threads": IO_THREADS, "max_number_of_tasks_waiting": n("waiting"),
                    "worker_timeout_seconds": n("timeout"), "load_balance_seconds": n("load balance"), "load_balance_trigger_times": n("trigger"),
                    "per_worker_queue_size": n("queue")}
        return {**{k.replace("_", "-") if k != "address" else k: x for k, x in v.items()}, "num-of-workers": c.n_workers}

    def query(self, vm, name, args):
        if name == "argument":
            return argument(vm, self.given, args)
        return None

    def worker_main(self, vm):
        """what the process that runs the worker executes"""
        from .base import construct_of, exc_text, site_text
        from ..libmods import start_strand

        mon = vm.st.mon
        c = self.cfg
        self.given = self.options()
        mon["starts"] = ()
        mon["phase"] = "launch"
        if c.start == "cli":
            fn = vm.getattr(vm.import_module("scaled.entry_points.cluster"), "main")
        else:
            values = dict(self.given)
            values["serializer"] = own_serializer(vm)
            combination(vm, values)
            ps = [p for p in mon["starts"] if is_a(vm, p, "scaled.cluster.cluster", "Cluster")]
            if len(ps) != 1:
                self.alarm("K01", "cluster", "SchedulerClusterCombo", f"the combined object starts {len(ps)} clusters")
                self.stop()
            mon["starts"] = ()
            fn = vm.getattr(ps[0], "run")
        if c.n_workers == 1:
            mon["phase"] = None
            return fn
        s = vm.spawn("cluster", None)
        start_strand(vm, s, fn)
        self.run(vm)
        mon = vm.st.mon
        s = next(x for x in vm.st.strands if x.name == "cluster")
        if s.status == "dead":
            self.alarm("K01", "start", construct_of(s.error.tb, "main"), f"the cluster fails with {exc_text(s.error)} when it is started: {site_text(s.error.tb)}", s.error.tb)
            self.stop()
        ws = mon["starts"]
        self.checked("option number of workers")
        if len(ws) != c.n_workers or len({id(w) for w in ws}) != len(ws):
            self.alarm("K01", "workers", "num_of_workers", f"the cluster starts {len(ws)} workers instead of {c.n_workers}")
            self.stop()
        for x in vm.st.strands:
            x.status = "done"
        mon["phase"] = None
        mon["starts"] = ()
        return vm.getattr(ws[c.which], "run")

    def own_process(self, vm, obj, name):
        """the only worker is run as a process of its own: it becomes the one looked at"""
        from ..libmods import start_strand

        if self.cfg.start == "direct" or self.cfg.n_workers != 1 or obj.cls.name != "Worker":
            return None
        if vm.st.mon.get("child"):
            self.alarm("K01", "workers", "num_of_workers", "the cluster starts 2 workers instead of 1")
            self.stop()
        for s in vm.st.strands:
            if s.name == name:
                s.name = "cluster"
        vm.st.mon["child"] = True
        start_strand(vm, vm.spawn(name, None), vm.getattr(obj, "run"))
        return ID("pid", "w1")

    def launching(self, vm, kind, obj, args):
        """events while processes are started; (result,) when they are dealt with"""
        mon = vm.st.mon
        if kind == "process_exited" and mon.get("child") and obj.cls.name == "Worker":
            return (False,)
        if mon.get("phase") != "launch":
            return None
        if kind == "process_start":
            mon["starts"] += (obj,)
            return (ID("pid", f"w{len(mon['starts'])}"),)
        if kind == "process_exited":
            return (False,)
        return (None,)
