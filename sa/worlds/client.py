"""The client library: the thread that uses it and its I/O thread, against a conforming scheduler.

The using thread runs a small driver program; the scheduler is an automaton that answers in every conforming way.  Both
threads are interleaved at every access to an object both can reach (cfg.preempt), or at blocking points only.
"""
from __future__ import annotations

import itertools

from . import drivers as D
from ..loader import load_source
from .base import *  # noqa: F401,F403
from .base import MonitorWorld, Messages, ID, ATOM, MISSING, Sym, Obj, TERM, VFunc, Cut, GuestError, describe, exc_text, construct_of, \
    site_text, AnalysisError

ADDRESS = "tcp://127.0.0.1:2345"
HEAD = """
from __sa__ import emit
from scaled.client import Client

def connect():
    return Client("%s")
""" % ADDRESS


def plain(v):
    return ("$tuple", *map(plain, v)) if type(v) is tuple else v


def is_data(vm, d, want):
    """d is the pickled value of a data node"""
    if type(want) is D.Raw:
        return type(d) is Sym and d.k == "term" and d.a[0] == "pickle" and want.test(d.a[1])
    return d == TERM("pickle", plain(want))


class Cfg:
    program = ""              # source of main()
    tasks = {}                # label -> (function, arguments)
    keys = {}                 # label -> keys as given
    graphs = {}               # label -> ({node: (function, arguments)}, data, keys)
    statuses = ("Success",)   # terminal statuses of tasks and graphs
    echoes = ("SubmitOK",)    # answers to a task
    bad_payload = False       # payloads may fail to be deserialized
    preempt = True
    rejected = ()             # labels whose call must raise and transmit nothing
    ordered = False           # results arrive in the order of the tasks
    props = ""                # properties that fail when the I/O thread fails

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


def uid(n):
    return ID("uuid", n)


class ClientWorld(MonitorWorld):
    int_cap = 9
    TEXT = {}
    IO = 1

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.crash_props = cfg.props or "C01"

    # ------------------------------------------------------------------ set-up
    def prepare(self, vm):
        M = self.M = Messages(vm)
        c = self.cfg
        vm.preempt = c.preempt
        self.mod = load_source(vm, "_driver", HEAD + c.program)

    def setup(self, vm):
        self.start(vm)
        mon = vm.st.mon
        c = self.cfg
        mon["call"] = None                       # call in progress
        mon["nid"] = 0
        mon["owner"] = {}                        # id -> label of the call that made it
        mon["task"] = {}                         # id of a transmitted task -> label
        mon["st"] = {t: "new" for t in c.tasks}  # new/called/sent/refused/accepted/answered
        mon["gr"] = {g: "new" for g in c.graphs}
        mon["used"] = frozenset()                # ids of graphs and nodes
        mon["gnode"] = {}                        # (graph, node) order of the targets
        mon["fut"] = {}                          # label -> future handed out
        mon["early"] = ()                        # futures completed before they were handed out
        mon["out"] = {}                          # label -> outcome the client has read
        mon["fn"] = ()                           # registered functions
        mon["fid"] = {}
        mon["wire"] = ()                         # answers on their way
        mon["cancelled"] = frozenset()           # canceled by the user
        mon["stop"] = False
        mon["exit"] = False
        mon["told"] = frozenset()                # work the scheduler was told to cancel
        mon["dead"] = False
        mon["sock"] = None
        mon["raised"] = None
        main = vm.getattr(self.mod, "main")
        self.main(vm, "user", main)

    # ------------------------------------------------------------------ boundary
    def fresh_id(self, vm):
        mon = vm.st.mon
        mon["nid"] += 1
        mon["owner"][uid(mon["nid"])] = mon["call"]
        return uid(mon["nid"])

    def on_pickle(self, vm, v):
        if type(v) is VFunc:
            return ID("content", next((n for n, x in self.mod.ns.items() if x is v), v.code.name))
        return MISSING

    def on_unpickle(self, vm, v):
        if type(v) is Sym and v.k == "id" and v.a[0] in ("payload", "failure"):
            if self.cfg.bad_payload and vm.choose(2, f"the payload of {v.a[1]} loads") == 1:
                lab = v.a[1].split("/")[0]
                vm.st.mon["out"][lab] = ("broken",)
                vm.throw("AttributeError", ATOM("user", "str"))
            if v.a[0] == "payload":
                return ATOM("value." + v.a[1], "obj")
            return vm.call(vm.builtins["ValueError"], (ATOM("failure." + v.a[1], "str"),))
        if type(v) is bytes:
            return MISSING
        return MISSING

    def emit(self, vm, kind, obj, args):
        mon = vm.st.mon
        if kind in ("send", "recv", "use", "close", "context_destroy"):
            self.checked("socket used")
            if vm.st.strands.index(vm.cur) != self.IO:
                self.bad("P06", "thread", f"the socket is used ({kind}) by a thread that is not the connector's")
        if kind == "socket":
            mon["sock"] = obj
        elif kind == "send":
            self.sent(vm, tuple(args[0].x))
        elif kind == "begin":
            mon["call"] = obj
            if obj in mon["st"]:
                mon["st"][obj] = "called"
            if obj in mon["gr"]:
                mon["gr"][obj] = "called"
            for t in mon["st"]:
                if t.startswith(obj + "."):
                    mon["st"][t] = "called"
        elif kind == "end":
            self.ended(vm, obj, args[0])
        elif kind == "raised":
            self.raised(vm, obj, args[0])
        elif kind == "value":
            self.value(vm, obj, args[0])
        elif kind == "error":
            self.error(vm, obj, args[0])
        elif kind == "given":
            self.checked("graph compared")
            nodes, data, keys = self.cfg.graphs[obj]
            g, k = args
            want = {**nodes, **data}
            if set(g.x) != set(want):
                self.bad("C05", "given", f"get changes the graph it is given: {sorted(set(want) ^ set(map(str, g.x)))}")
            elif list(k.x) != list(self.cfg.keys[obj]):
                self.bad("C05", "given", f"get changes the list of keys it is given to {describe(k)}")
        elif kind == "disconnect":
            mon["stop"] = True
        elif kind == "future_cancelled":
            lab = self.label_of(mon, obj)
            self.checked("future canceled")
            if vm.st.strands.index(vm.cur) == self.IO:
                self.completed(vm, obj, "cancelled", None)
            elif lab is not None:
                mon["cancelled"] |= {lab}
        elif kind in ("future_result", "future_exception"):
            self.completed(vm, obj, kind[7:], args[0])
        return None

    @staticmethod
    def label_of(mon, fut):
        for k, f in mon["fut"].items():
            if f is fut:
                return k
        return None

    def stopping(self, vm):
        """the client was disconnected, by its user or by a blocking call whose work has failed"""
        mon = vm.st.mon
        call = mon["call"]
        if not mon["stop"] and call is not None and call not in self.cfg.tasks and \
                any(o[0] != "Success" and self.root(l).split(".")[0] == call for l, o in mon["out"].items()):
            mon["stop"] = True
        return mon["stop"]

    # ------------------------------------------------------------------ futures
    def root(self, lab):
        return lab.split("/")[0]

    def completed(self, vm, fut, how, v):
        mon = vm.st.mon
        lab = self.label_of(mon, fut)
        if lab is None:
            mon["early"] += ((fut, how, v, mon.get("reading")),)
            return
        self.judge(vm, lab, how, v)

    def judge(self, vm, lab, how, v):
        """a future was completed"""
        mon = vm.st.mon
        prop = "C05" if "/" in lab or lab in mon["gr"] else "C02"
        self.checked("future completed")
        if mon["exit"] or self.stopping(vm) and self.root(lab) not in mon["out"]:
            if how == "exception" and type(v) is Obj and v.cls.name == "ScaledDisconnect" or how == "cancelled":
                return
            if self.root(lab) not in mon["out"]:
                return self.bad("C07", "disconnect-error", f"the future of {lab} is completed with {self.show(how, v)} instead of the disconnect error")
        out = mon["out"].get(self.root(lab))
        if out is None:
            return self.bad(prop, "early", f"the future of {lab} is completed with {self.show(how, v)} before its outcome is known")
        self.match(vm, prop, lab, out, how, v)

    def match(self, vm, prop, lab, out, how, v):
        what = out[0]
        if what == "Success":
            want = ATOM("value." + lab, "obj")
            if how != "result" or v != want:
                self.bad(prop, "value", f"the future of {lab} is completed with {self.show(how, v)} instead of its value")
        elif what == "Failed":
            ok = how == "exception" and type(v) is Obj and v.f.get("args") == (ATOM("failure." + self.root(lab), "str"),)
            if not ok:
                self.bad(prop, "failure", f"the future of {lab} is completed with {self.show(how, v)} instead of the exception the task raised")
        elif how == "result":
            self.bad(prop, "no-value", f"the future of {lab} yields {describe(v)} although the outcome is {what}")

    @staticmethod
    def show(how, v):
        if how == "cancelled":
            return "a cancellation"
        return f"{how} {exc_text(v) if type(v) is Obj and 'args' in v.f else describe(v)}"

    def hand_out(self, vm, lab, fut):
        mon = vm.st.mon
        mon["fut"][lab] = fut
        for e in mon["early"]:
            if e[0] is fut:
                self.judge(vm, lab, e[1], e[2])
        mon["early"] = tuple(e for e in mon["early"] if e[0] is not fut)

    # ------------------------------------------------------------------ the driver's notes
    def ended(self, vm, lab, v):
        """a call has returned"""
        mon = vm.st.mon
        mon["call"] = None
        c = self.cfg
        self.checked("call returned")
        if lab in c.rejected:
            self.bad(self.reject_prop(lab), "accepted", f"the call {lab} returns instead of raising")
            return
        if lab in c.graphs:
            nodes, data, keys = c.graphs[lab]
            if not nodes and mon["gr"][lab] == "called":
                mon["gr"][lab] = "answered"
            r = v.x if type(v) is Obj and v.cls.payload == "dict" else None
            if r is None or set(r) != set(keys):
                return self.bad("C05", "keys", f"get returns {describe(v)} instead of a value for each of {keys}")
            for k in keys:
                f = r[k]
                if type(f) is Obj and f.cls.name == "Future":
                    if f"{lab}/{k}" not in mon["fut"]:
                        self.hand_out(vm, f"{lab}/{k}", f)
                else:
                    self.checked("graph value")
                    if mon["out"].get(lab, ("?",))[0] != "Success" or f != ATOM(f"value.{lab}/{k}", "obj"):
                        self.bad("C05", "value", f"get returns {describe(f)} for {k}")
        elif lab in c.tasks:
            if type(v) is Obj and v.cls.name == "Future":
                self.hand_out(vm, lab, v)
            else:
                self.bad("C01", "no-future", "submit does not return a future")
        else:
            self.checked("map returned")
            n = len([t for t in c.tasks if t.startswith(lab + ".")])
            want = tuple(ATOM(f"value.{lab}.{i}", "obj") for i in range(n))
            got = tuple(v.x) if type(v) is Obj and v.cls.payload == "list" else None
            if got != want:
                self.bad("C03", "results", f"map returns {describe(v)} instead of the {n} results in order")

    def reject_prop(self, lab):
        return "C06" if lab in self.cfg.graphs else "C03" if any(t.startswith(lab + ".") for t in self.cfg.tasks) else "C04"

    def raised(self, vm, lab, e):
        mon = vm.st.mon
        mon["call"] = None
        c = self.cfg
        self.checked("call raised")
        if lab in c.rejected:
            mon["gr"].pop(lab, None)
            for t in mon["st"]:
                if t.startswith(lab + ".") and mon["st"][t] == "called":
                    mon["st"][t] = "new"
            if self.reject_prop(lab) == "C03" and e.cls.name != "TypeError":
                self.bad("C03", "error", f"the call {lab} raises {exc_text(e)} instead of TypeError")
            return
        if e.cls.name == "ScaledDisconnect" and mon["stop"]:
            for t in [t for t in mon["st"] if t == lab or t.startswith(lab + ".")]:
                if mon["st"][t] == "called":
                    del mon["st"][t]
            if mon["gr"].get(lab) == "called":
                del mon["gr"][lab]
            return
        if lab in c.graphs:
            out = mon["out"].get(lab)
            if out is None or out[0] == "Success":
                return self.bad("C05", "raised", f"get raises {exc_text(e)}")
            mon["stop"] = True
            if out[0] == "Failed" and e.f.get("args") != (ATOM("failure." + lab, "str"),):
                self.bad("C05", "failure", f"get raises {exc_text(e)} instead of the failure of the graph")
        elif lab in c.tasks:
            self.bad("C01", "raised", f"submit raises {exc_text(e)}: {site_text(e.tb)}")
        else:
            outs = [mon["out"].get(t) for t in c.tasks if t.startswith(lab + ".")]
            bad = [o for o in outs if o is not None and o[0] != "Success"]
            mon["stop"] = True
            if not bad:
                self.bad("C03", "raised", f"map raises {exc_text(e)} although no task has failed: {site_text(e.tb)}")
            elif all(o[0] == "Failed" for o in bad) and not any(
                    e.f.get("args") == (ATOM("failure." + t, "str"),) for t in c.tasks if t.startswith(lab + ".")):
                self.bad("C03", "failure", f"map raises {exc_text(e)} instead of the failure of a task")

    def value(self, vm, lab, v):
        mon = vm.st.mon
        self.checked("value seen")
        if v != ATOM("value." + lab, "obj"):
            self.bad("C05" if "/" in lab else "C02", "value", f"the future of {lab} yields {describe(v)}")

    def error(self, vm, lab, e):
        self.checked("error seen")
        mon = vm.st.mon
        out = mon["out"].get(self.root(lab))
        if out is not None and out[0] == "Success" and lab not in mon["cancelled"]:
            self.bad("C05" if "/" in lab else "C02", "error", f"waiting for {lab} raises {exc_text(e)} although it has succeeded")

    # ------------------------------------------------------------------ what the scheduler receives
    def sent(self, vm, frames):
        mon = vm.st.mon
        m = self.M.read(frames)
        if m is None:
            return self.bad("C01", "malformed", "an undecodable message is sent")
        self.checked("sent " + m.cls.name)
        h = getattr(self, "s_" + m.cls.name, None)
        if h is None:
            return self.bad("C01", "unexpected", f"{m.cls.name} is sent to the scheduler")
        h(vm, m)

    def s_FunctionRequest(self, vm, m):
        mon = vm.st.mon
        if m.f["type"].name != "Add":
            return self.bad("C01", "function-request", f"a function request {m.f['type'].name} is sent")
        self.function(vm, m.f["function_id"], m.f["function_name"], m.f["content"], "C01")
        f = m.f["function_id"]
        mon["wire"] += (("function", f, "Duplicated" if f in mon["fn"] else "OK"),)
        if f not in mon["fn"]:
            mon["fn"] += (f,)

    def function(self, vm, fid, name, content, props):
        """a function is registered under an identifier of its content"""
        mon = vm.st.mon
        if not (type(content) is Sym and content.k == "id" and content.a[0] == "content"):
            return self.bad(props, "content", f"the content of a function is {describe(content)}")
        f = content.a[1]
        if mon["fid"].setdefault(fid, f) != f:
            self.bad(props, "function-id", f"{f} is registered under the id of {mon['fid'][fid]}")

    def s_Task(self, vm, m):
        mon = vm.st.mon
        t = m.f["task_id"]
        lab = mon["task"].get(t)
        if lab is not None:
            if mon["st"][lab] != "refused":
                return self.bad("C01", "twice", f"{lab} is transmitted a second time")
        else:
            lab = self.which(vm, m)
            if lab is None:
                return
            if t in mon["used"]:
                self.bad("C01 C02", "same-id", f"{lab} is transmitted with the id of a node of a graph")
            mon["task"][t] = lab
        f = m.f["function_id"]
        if f not in mon["fid"]:
            self.bad("C01", "unregistered", f"{lab} is transmitted before its function is registered")
        # the scheduler decides when it reads the message
        if "FunctionNotExists" in self.cfg.echoes and f in mon["fn"] and vm.choose(2, "the function is still there") == 1:
            mon["fn"] = tuple(x for x in mon["fn"] if x != f)
        e = "FunctionNotExists"
        if f in mon["fn"]:
            es = [x for x in self.cfg.echoes if x != e]
            e = es[vm.choose(len(es), "/".join(es)) if len(es) > 1 else 0]
        mon["st"][lab] = "sent"
        mon["wire"] += (("echo", lab, e),)

    def args_of(self, m):
        a = m.f["function_args"]
        out = []
        for x in a.x if type(a) is Obj else a:
            out.append((x.f["type"].name, x.f["data"]))
        return out

    def which(self, vm, m):
        """the call a transmitted task belongs to, found by its payload"""
        mon = vm.st.mon
        fn = mon["fid"].get(m.f["function_id"])
        got = self.args_of(m)
        for lab, (f, args) in self.cfg.tasks.items():
            if f == fn and got == [("Data", TERM("pickle", a)) for a in args]:
                if mon["st"].get(lab) == "called":
                    return lab
                if mon["st"].get(lab) == "new":
                    self.bad(self.reject_prop(lab) if lab.split(".")[0] in self.cfg.rejected else "C01", "unasked",
                             f"{lab} is transmitted although it was not submitted")
                    return lab
        p = "C03" if any("." in t for t in self.cfg.tasks) else "C01"
        self.bad(p, "task", f"a task {fn}({', '.join(describe(d) for _, d in got)}) is transmitted that was not submitted, or a second time")
        return None

    def s_GraphTask(self, vm, m):
        mon = vm.st.mon
        g = m.f["task_id"]
        cands = [x for x in self.cfg.graphs if mon["gr"].get(x) == "called"]
        rej = [x for x in cands if x in self.cfg.rejected]
        if rej:
            mon["gr"][rej[0]] = "bad"
            return self.bad("C06", "transmitted", f"the invalid graph {rej[0]} is transmitted")
        if not cands:
            return self.bad("C05", "graph-twice", "a graph is transmitted a second time or was not asked for")
        lab = cands[0]
        nodes, data, keys = self.cfg.graphs[lab]
        fns = dict(m.f["functions"].x)
        for fid, (name, content) in fns.items():
            self.function(vm, fid, name, content, "C06")
        tasks = list(m.f["graph"].x)
        targets = tuple(m.f["targets"].x)
        asg = self.assign(vm, nodes, data, tasks, fns)
        if asg is None:
            mon["gr"][lab] = "bad"
            return self.bad("C06", "graph", f"the transmitted graph is not the one given: {len(tasks)} node(s) "
                            + "; ".join(f"{mon['fid'].get(t.f['function_id'])}({', '.join(describe(d) for _, d in self.args_of(t))})" for t in tasks))
        back = {t: n for n, t in asg.items()}
        order = tuple(back.get(t) for t in targets)
        if set(order) != set(keys) or len(order) != len(set(order)):
            mon["gr"][lab] = "bad"
            return self.bad("C05", "targets", f"the targets of the graph are {order} instead of {keys}")
        ids = frozenset((g, *asg.values()))
        if len(ids) != len(asg) + 1 or ids & (mon["used"] | frozenset(mon["task"])):
            self.bad("C05 C06", "same-id", f"ids of the graph {lab} or of its nodes are not their own: they were used before or twice")
        mon["used"] |= ids
        mon["gr"][lab] = "sent"
        mon["task"][g] = lab
        mon["gnode"][lab] = order

    def assign(self, vm, nodes, data, tasks, fns):
        """node -> task id such that every task is exactly the node's call"""
        mon = vm.st.mon
        if len(tasks) != len(nodes):
            return None
        ids = [t.f["task_id"] for t in tasks]
        if len(set(ids)) != len(ids):
            return None
        got = [(mon["fid"].get(t.f["function_id"]) if t.f["function_id"] in fns else None, self.args_of(t)) for t in tasks]
        for perm in itertools.permutations(nodes):
            a = dict(zip(perm, ids))
            ok = True
            for n, (fn, args) in zip(perm, got):
                f, want = nodes[n]
                if f != fn or len(want) != len(args) or not all(
                        x == ("Task", a[w]) if w in nodes else x[0] == "Data" and is_data(vm, x[1], data[w]) for w, x in zip(want, args)):
                    ok = False
                    break
            if ok:
                return a
        return None

    def s_TaskCancel(self, vm, m):
        self.told(vm, m, "task")

    def s_GraphTaskCancel(self, vm, m):
        self.told(vm, m, "graph")

    def told(self, vm, m, what):
        mon = vm.st.mon
        t = m.f["task_id"]
        lab = mon["task"].get(t) or mon["owner"].get(t)
        if lab is None:
            return self.bad("C07", "cancel-unknown", f"a cancel of an unknown {what} is sent")
        if not self.stopping(vm):
            self.bad("C07 C08", "cancel", f"a cancel of {lab} is sent although the client is connected")
        if what == "graph" and t not in mon["task"] and lab in mon["gr"] and mon["gr"][lab] == "sent":
            return self.bad("C07", "cancel-node", f"a cancel that does not name the graph {lab} is sent")
        if (lab in mon["gr"]) != (what == "graph"):
            return self.bad("C07", "cancel-kind", f"a {what} cancel is sent for {lab}")
        mon["told"] |= {lab}

    # ------------------------------------------------------------------ end of a reaction
    def io(self, vm):
        s = vm.st.strands
        return s[self.IO] if len(s) > self.IO else None

    def idle(self, vm):
        s = self.io(vm)
        sock = vm.st.mon["sock"]
        return s is not None and s.status == "wait" and s.wait is sock and not sock.f["inbox"].x

    def check(self, vm):
        mon = vm.st.mon
        s = self.io(vm)
        if s is None:
            return
        if s.status == "done" and not mon["exit"]:
            mon["exit"] = True
            if not self.stopping(vm):
                self.end_bad("C01", "ended", "I/O thread", "the I/O thread ends although nobody has disconnected the client")
            self.at_exit(vm)
        if self.idle(vm):
            mon["reading"] = None
            for lab in list(mon["out"]):
                self.settled(vm, lab)

    def settled(self, vm, lab):
        """the outcome of lab was read and the I/O thread waits again: its futures are complete"""
        mon = vm.st.mon
        futs = {k: f for k, f in mon["fut"].items() if self.root(k) == lab}
        for k, f in futs.items():
            if f.f["_state"] in ("PENDING", "RUNNING"):
                p = "C05 P03" if "/" in k else "C02 C01 P03"
                self.end_bad(p, "unresolved", mon["out"][lab][0], f"the future of {k} stays unresolved although the outcome is {mon['out'][lab][0]}")
            elif k in mon["cancelled"] and f.f["_state"] not in ("CANCELLED", "CANCELLED_AND_NOTIFIED"):
                self.end_bad("C08", "uncancelled", "future", f"the canceled future of {k} is {f.f['_state']}")

    def at_exit(self, vm):
        mon = vm.st.mon
        self.checked("I/O thread ended")
        if not vm.truth(mon["sock"].f["closed"]):
            self.end_bad("C07", "socket", "socket", "the socket stays open when the I/O thread ends")
        for lab, s in list(mon["st"].items()) + list(mon["gr"].items()):
            if s in ("called", "sent", "refused", "accepted"):
                # a call in progress may still raise
                if s == "called" and mon["call"] is not None and self.root(mon["call"]) == lab.split(".")[0]:
                    continue
                if s == "called" and lab not in [self.root(k) for k in mon["fut"]]:
                    continue
                if lab not in mon["told"]:
                    self.end_bad("C07", "not-cancelled", "graph" if lab in mon["gr"] else "task",
                                 f"the scheduler is not told to cancel the outstanding {lab}")
        for k, f in mon["fut"].items():
            if f.f["_state"] in ("PENDING", "RUNNING"):
                self.end_bad("C07", "unreleased", "future", f"the future of {k} stays unresolved after the disconnect")

    def handling(self, vm):
        return vm.st.mon.get("reading") is not None

    def died(self, vm, s, err):
        mon = vm.st.mon
        i = vm.st.strands.index(s)
        if i == 0:
            p = set(self.crash_props.split())
            for x in sorted(p):
                self.alarm(x, "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                           f"{exc_text(err)} escapes to the user: {site_text(err.tb)}", err.tb)
            mon["dead"] = True
            return
        if not mon["dead"]:
            mon["dead"] = True
            self.crashed(vm, s, err, "the I/O thread")

    # ------------------------------------------------------------------ actions
    def actions(self, vm):
        st = vm.st
        mon = st.mon
        if mon["dead"]:
            return []
        acts = []
        for i, s in enumerate(st.strands):
            name = "user" if i == 0 else "I/O"
            if s.status == "ready":
                acts.append((name, lambda vm, i=i: self.step(vm, i)))
            elif s.status == "wait" and s.timer:
                acts.append((name + " wait ends", lambda vm, i=i: self.resume(vm, i)))
        if not self.cfg.preempt and len([a for a in acts if a[0] in ("user", "I/O")]) > 1:
            acts = [a for a in acts if a[0] != "I/O"]
        if self.idle(vm):
            for label, make, upd in self.replies(vm):
                def act(vm, make=make, upd=upd):
                    upd(vm.st.mon)
                    s = vm.st.mon["sock"]
                    s.f["inbox"].x.append(vm.list(make()))
                    vm.notify(s)
                    self.step(vm, self.IO)

                acts.append((label, act))
        return acts

    def step(self, vm, i):
        self.explorer.step_strand(i)
        if not self.cfg.preempt:
            self.settle_io(vm)

    def settle_io(self, vm):
        """without preemption threads run to their next blocking point"""
        n = 0
        while vm.st.ready and n < 50:
            n += 1
            self.explorer.step_strand(vm.st.ready[0])

    def resume(self, vm, i):
        vm.wake(vm.st.strands[i])
        self.step(vm, i)

    def id_of(self, mon, lab):
        return next((t for t, l in mon["task"].items() if l == lab), None)

    def replies(self, vm):
        mon = vm.st.mon
        c = self.cfg
        ns = self.M.ns
        out = []

        def enum(cls, n):
            return ns[cls].members[n]

        if mon["wire"]:
            w = mon["wire"][0]

            def pop(m):
                m["wire"] = m["wire"][1:]

            if w[0] == "function":
                out.append(("function registered", lambda w=w: self.M.make("FunctionResponse", enum("FunctionResponseType", w[2]), w[1], b"", b""), pop))
            else:
                lab = w[1]
                t = self.id_of(mon, lab)
                e = w[2]

                def upd(m, e=e, lab=lab):
                    m["wire"] = m["wire"][1:]
                    m["st"][lab] = {"SubmitOK": "accepted", "FunctionNotExists": "refused", "NoWorker": "answered"}[e]
                    if e == "NoWorker":
                        m["out"][lab] = ("NoWorker",)

                out.append((f"{lab}: {e}", lambda e=e, t=t: self.M.make("TaskEcho", t, enum("TaskEchoStatus", e)), upd))
        for lab, s in mon["st"].items():
            if s != "accepted":
                continue
            t = self.id_of(mon, lab)
            for st in c.statuses:
                def upd(m, st=st, lab=lab):
                    m["st"][lab] = "answered"
                    m["out"][lab] = (st,)
                    m["reading"] = lab

                pay = {"Success": ID("payload", lab), "Failed": ID("failure", lab)}.get(st, b"")
                out.append((f"{lab}: {st}", lambda st=st, t=t, pay=pay: self.M.make("TaskResult", t, enum("TaskStatus", st), 1, pay), upd))
            if c.ordered:
                break
        for g, s in mon["gr"].items():
            if s != "sent":
                continue
            t = self.id_of(mon, g)
            order = mon["gnode"][g]
            for st in c.statuses:
                def upd(m, st=st, g=g):
                    m["gr"][g] = "answered"
                    m["out"][g] = (st,)
                    m["reading"] = g

                pay = [ID("payload", f"{g}/{n}") for n in order] if st == "Success" else [ID("failure", g) if st == "Failed" else b""]
                out.append((f"{g}: {st}", lambda st=st, t=t, pay=pay: self.M.make("GraphTaskResult", t, enum("TaskStatus", st), vm.list(pay)), upd))
        return out

    # ------------------------------------------------------------------ liveness
    def label(self, vm):
        mon = vm.st.mon
        if mon["dead"]:
            return "dead"
        if vm.st.strands and vm.st.strands[0].status != "done":
            return "user waits"
        if mon["stop"]:
            return "" if mon["exit"] else "connected"
        for lab, s in list(mon["st"].items()) + list(mon["gr"].items()):
            if s not in ("new", "answered"):
                return lab
        return "" if self.idle(vm) else "busy"

    def conclude(self):
        ex = self.explorer
        if not ex.complete:
            return
        for n in ex.cannot_reach(lambda x: x == "" or x == "dead"):
            lab = ex.labels[n]
            ex.current = n
            ex.label = None
            text = {"user waits": "the calling thread waits for ever", "connected": "the I/O thread never ends after the disconnect"}.get(
                lab, f"{lab} is never transmitted or answered")
            props = "C07" if lab == "connected" else "C01 P03 " + self.crash_props
            for p in sorted(set(props.split())):
                self.alarm(p, "stuck", lab, text, ())
            break
