"""The processor's housekeeping: rounds of its cleaner between tasks, with functions that may be idle and memory that may grow."""
from __future__ import annotations

from .base import *  # noqa: F401,F403
from .base import ATOM, MISSING, TERM, construct_of, describe, exc_text, site_text
from .processor import Cfg, ProcessorWorld

__all__ = ["Cfg", "KeepingWorld"]


class KeepingWorld(ProcessorWorld):
    """a round of the cleaner is one reaction: it sees no task in the middle of its execution (that is left to the other scenarios)"""

    crash_props = "W10"

    def prepare(self, vm):
        super().prepare(vm)
        vm.preempt = False
        self.on_known = self.on_rel

    def start(self, vm):
        super().start(vm)
        mon = vm.st.mon
        mon["kept"] = {}           # function that is cached -> clock readings of its last use
        mon["used"] = None         # function used in this reaction
        mon["gcat"] = frozenset()  # clock readings of the last collection
        mon["r"] = None            # what happened in this round
        mon["rounds"] = True

    def setup(self, vm):
        super().setup(vm)
        vm.st.mon["gcat"] = vm.st.mon.get("now", frozenset())

    # ------------------------------------------------------------------ tasks
    def call_sym(self, vm, f, args, kwargs):
        mon = vm.st.mon
        if f.k == "atom" and f.a[0] == "cdll.malloc_trim":
            r = mon["r"]
            if r is None or r["over"] is not True:
                self.bad("W10", "trim", "memory is given back to the system although the processor does not use too much of it")
            else:
                mon["r"] = {**r, "trim": True}
                self.checked("memory trimmed")
            return 0
        if f.k == "atom" and f.a[0].startswith("call.") and mon["cur"] is not None:
            fn = self.fn[mon["cur"]]
            if mon["state"] == "given" and fn not in mon["kept"]:
                self.bad("W10", "not-dropped", f"{describe(fn)} is still cached although it was idle for longer than the retention time or a drop was asked for")
            mon["used"] = fn
        return super().call_sym(vm, f, args, kwargs)

    def sent(self, vm, frames):
        mon = vm.st.mon
        m = self.M.read(frames)
        if m is not None and m.cls.name == "FunctionRequest" and m.f["function_id"] in mon["kept"]:
            self.bad("W10", "dropped", f"{describe(m.f['function_id'])} was dropped although it was used within the retention time")
        return super().sent(vm, frames)

    def r_FunctionRequest(self, vm, m):
        super().r_FunctionRequest(vm, m)
        vm.st.mon["kept"].pop(m.f["function_id"], None)

    def messages(self, vm):
        def quiet(upd):
            def act(m):
                g = dict(m["given"])
                upd(m)
                m["given"] = g

            return act

        return [(label, key, quiet(upd)) for label, key, upd in super().messages(vm)]

    # ------------------------------------------------------------------ rounds
    def emit(self, vm, kind, obj, args):
        if kind == "gc":
            mon = vm.st.mon
            r = mon["r"]
            if r is None or r["due"] is not True:
                self.bad("W10", "collected", "garbage is collected although the interval has not passed since the last collection")
            else:
                mon["r"] = {**r, "gc": True}
                self.checked("garbage collected")
            return None
        return super().emit(vm, kind, obj, args)

    def query(self, vm, name, args):
        if name == "reading":
            kind, pid, t = args
            v = TERM("reading", kind, "own" if pid is None or pid == ATOM("+pid", "int") else pid, vm.unk(t))
            r = vm.st.mon["r"]
            if r is not None and r["gc"] and v.a[1:3] == ("rss", "own"):
                vm.st.mon["r"] = {**r, "rss": r["rss"] | {v}}
            return v
        return super().query(vm, name, args)

    def on_rel(self, vm, key, op_, bound):
        mon = vm.st.mon
        r = mon["r"]
        c = dict(key)
        for s, k in c.items():
            if s.k == "atom" and s.a[0] in ("gc", "retention", "trim"):
                break
        else:
            return
        if r is None:
            return
        rest = {x: y / -k for x, y in c.items() if x is not s}
        if bound != 0:
            return
        if -k < 0:
            op_ = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op_, op_)
        more = op_ in (">", ">=")
        if s.a[0] == "trim":
            x = next(iter(rest), None)
            if len(rest) == 1 and x in r["rss"] and rest[x] == 1:
                mon["r"] = {**r, "over": more}
            return
        if sorted(rest.values()) != [-1, 1]:
            return
        self.clocks_compared(vm, key, "W10", "an age")
        since = next(x for x, y in rest.items() if y == -1)
        if s.a[0] == "gc":
            if since in mon["gcat"]:
                mon["r"] = {**r, "due": more}
            return
        for f, b in mon["kept"].items():
            if since in b:
                mon["r"] = r = {**r, "idle": {**r["idle"], f: more}}

    def actions(self, vm):
        out = []
        for label, act in super().actions(vm):
            if label.startswith("cleaner"):
                def round_(vm, act=act):
                    vm.st.mon["r"] = dict(idle={}, due=None, gc=False, rss=frozenset(), over=None, trim=False)
                    act(vm)
                    self.round_over(vm)

                out.append((label, round_))
            else:
                out.append((label, act))
        return out

    def round_over(self, vm):
        mon = vm.st.mon
        r, mon["r"] = mon["r"], None
        s = vm.st.strands[1] if len(vm.st.strands) > 1 else None
        if s is not None and (s.status == "ready" or s.status == "wait" and not s.timer):
            self.end_bad("W10", "stuck", "cleaner", "the cleaner thread waits for ever")
            return
        if s is None or s.status != "wait":
            return
        self.checked("round of the cleaner")
        for f in list(mon["kept"]):
            if f not in r["idle"]:
                self.end_bad("W10", "unchecked", "cleaner", f"a round of the cleaner does not compare the time since {describe(f)} was used last with the retention time")
            elif r["idle"][f]:
                self.checked("function dropped")
                del mon["kept"][f]
        if r["due"] is None:
            self.end_bad("W10", "gc-unchecked", "cleaner", "a round of the cleaner does not compare the time since the last collection with the interval")
        elif r["due"]:
            if not r["gc"]:
                self.end_bad("W10", "gc-missed", "cleaner", "the interval has passed and no garbage is collected")
            elif r["over"] is None:
                self.end_bad("W10", "trim-unchecked", "cleaner", "after a collection the memory the processor still uses is not compared with the threshold")
            elif r["over"] and not r["trim"]:
                self.end_bad("W10", "trim-missed", "cleaner", "the processor uses too much memory after a collection and none is given back")
        if r["gc"]:
            mon["gcat"] = mon.get("now", frozenset())

    def check(self, vm):
        super().check(vm)
        mon = vm.st.mon
        f, mon["used"] = mon["used"], None
        if f is not None:
            mon["kept"] = {**mon["kept"], f: mon.get("now", frozenset())}
        if len(vm.st.strands) < 2 and not mon["over"]:
            self.end_bad("W10", "no-cleaner", "processor", "the processor runs without its cleaner thread")

    def died(self, vm, s, err):
        if vm.st.strands.index(s) != 0:
            return self.alarm("W10", "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                              f"{exc_text(err)} escapes from the cleaner thread: {site_text(err.tb)}", err.tb)
        return super().died(vm, s, err)
