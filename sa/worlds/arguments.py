"""Calls of Client.submit for every shape of signature and call up to a size: what is transmitted must bind on the worker
exactly as the same call would bind locally."""
from __future__ import annotations

import inspect
import itertools

from ..libmods import start_strand
from .client import ClientWorld
from .client import Cfg as ClientCfg
from .base import *  # noqa: F401,F403
from .base import ATOM, describe, exc_text, construct_of, site_text, TERM, Sym, Obj, AnalysisError

P = inspect.Parameter


class Cfg(ClientCfg):
    size = 2
    preempt = False
    props = "C04"

    def __init__(self, size=2):
        self.size = size


def signatures(size):
    out = []
    for po in range(min(size, 2) + 1):
        for pk in range(size - po + 1):
            n = po + pk
            for d in range(n + 1):
                for varp, ko, varkw in itertools.product((0, 1), (None, "required", "default"), (0, 1)):
                    ps = []
                    for i in range(n):
                        name = "abc"[i]
                        ps.append(P(name, P.POSITIONAL_ONLY if i < po else P.POSITIONAL_OR_KEYWORD,
                                    default="d." + name if i >= n - d else P.empty))
                    if varp:
                        ps.append(P("args", P.VAR_POSITIONAL))
                    if ko:
                        ps.append(P("k", P.KEYWORD_ONLY, default="d.k" if ko == "default" else P.empty))
                    if varkw:
                        ps.append(P("kw", P.VAR_KEYWORD))
                    out.append(inspect.Signature(ps))
    return out


def calls(sig):
    plain = [p.name for p in sig.parameters.values() if p.kind in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD, P.KEYWORD_ONLY)]
    n = len([p for p in plain if p != "k"])
    names = plain + ["z"]
    out = []
    for pos in range(n + 2):
        for r in range(len(names) + 1):
            for kws in itertools.combinations(names, r):
                out.append((tuple(f"p{i}" for i in range(pos)), {k: "k." + k for k in kws}))
                if len(kws) == 2:
                    out.append((tuple(f"p{i}" for i in range(pos)), {k: "k." + k for k in reversed(kws)}))
    return out


def bind(sig, args, kwargs):
    try:
        b = sig.bind(*args, **kwargs)
    except TypeError:
        return None
    b.apply_defaults()
    return dict(b.arguments)


def spell(args, kwargs):
    return "(" + ", ".join(list(args) + [f"{k}={v}" for k, v in kwargs.items()]) + ")"


class ArgsWorld(ClientWorld):
    def prepare(self, vm):
        c = self.cfg
        self.sigs = signatures(c.size)
        self.calls = [calls(s) for s in self.sigs]
        text = []
        for i, s in enumerate(self.sigs):
            text.append(f"def f{i}{s}:\n    pass\n")
        text.append("FUNS = [" + ", ".join(f"f{i}" for i in range(len(self.sigs))) + "]\n")
        text.append("""
def main(i, calls):
    c = connect()
    f = FUNS[i]
    for k, args, kwargs in calls:
        emit("begin", k)
        try:
            x = c.submit(f, *args, **kwargs)
        except Exception as e:
            emit("raised", k, e)
        else:
            emit("end", k, x)
""")
        c.program = "".join(text)
        super().prepare(vm)

    def setup(self, vm):
        i = vm.choose(len(self.sigs), "signature")
        super().setup(vm)
        mon = vm.st.mon
        mon["sig"] = i
        mon["left"] = frozenset()

    def main(self, vm, name, fn):
        i = vm.taken[0][0]
        s = vm.spawn(name, None)
        # what is passed are arbitrary values, not strings
        start_strand(vm, s, fn, (i, vm.list([(f"{n}", tuple(ATOM(x, "obj") for x in a), vm.dict({p: ATOM(x, "obj") for p, x in k.items()}))
                                             for n, (a, k) in enumerate(self.calls[i])])))
        return s

    def text(self, mon, k):
        return f"submit{spell(*self.calls[mon['sig']][int(k)])} of f{self.sigs[mon['sig']]}"

    def ended(self, vm, k, v):
        mon = vm.st.mon
        mon["call"] = None
        self.checked("call returned")
        mon["left"] |= {k}

    def raised(self, vm, k, e):
        mon = vm.st.mon
        mon["call"] = None
        self.checked("call raised")
        sig = self.sigs[mon["sig"]]
        args, kwargs = self.calls[mon["sig"]][int(k)]
        if e.cls.name != "TypeError":
            return self.end_bad("C04", "error", construct_of(e.tb) + " " + e.cls.name, f"{self.text(mon, k)} raises {exc_text(e)}: {site_text(e.tb)}")
        try:
            b = sig.bind(*args, **kwargs)
        except TypeError:
            return
        if not any(sig.parameters[n].kind in (P.KEYWORD_ONLY, P.VAR_KEYWORD) for n in b.arguments):
            self.end_bad("C04", "refused", construct_of(e.tb), f"{self.text(mon, k)} raises {exc_text(e)} although the call is valid: {site_text(e.tb)}")

    def s_Task(self, vm, m):
        mon = vm.st.mon
        k = mon["owner"].get(m.f["task_id"])
        if k is None:
            return self.bad("C04", "task", "a task is transmitted that no call has made")
        self.checked("arguments compared")
        mon["left"] -= {k}
        sig = self.sigs[mon["sig"]]
        args, kwargs = self.calls[mon["sig"]][int(k)]
        sent = []
        for kind, d in self.args_of(m):
            if kind != "Data" or not (type(d) is Sym and d.k == "term" and d.a[0] == "pickle"):
                return self.bad("C04", "payload", f"an argument is transmitted as {kind} {describe(d)}")
            sent.append(d.a[1].a[0] if type(d.a[1]) is Sym and d.a[1].k == "atom" else d.a[1])
        want, got = bind(sig, args, kwargs), bind(sig, sent, {})
        if got != want and got is not None:
            self.bad("C04", "binding", f"{self.text(mon, k)} is executed as f{spell(map(str, sent), {})}: "
                     + ("the local call is a TypeError" if want is None else f"{got} instead of {want}"))
        if got is None and want is not None:
            b = sig.bind(*args, **kwargs)
            if not any(sig.parameters[n].kind in (P.KEYWORD_ONLY, P.VAR_KEYWORD) for n in b.arguments):
                self.bad("C04", "unbound", f"{self.text(mon, k)} is executed as f{spell(map(str, sent), {})}, a TypeError")

    def replies(self, vm):
        mon = vm.st.mon
        return [r for r in super().replies(vm)] if mon["wire"] else []

    def label(self, vm):
        mon = vm.st.mon
        if mon["dead"]:
            return "dead"
        if vm.st.strands and vm.st.strands[0].status != "done":
            return "user waits"
        return "" if self.idle(vm) and not mon["left"] else "a call"
