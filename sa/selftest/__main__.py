"""Runs small programs with known outcome through the interpreter."""
import os
import sys

from .. import libmods
from ..loader import PRELUDE, new_vm
from ..vm import Frame, GuestError, get_code
from ..values import VMod


def run(path):
    vm = new_vm()
    m = VMod("guest", False)
    m.file = path
    vm.modules["guest"] = m
    m.ns["__name__"] = "guest"
    co = compile(open(path).read(), path, "exec", dont_inherit=True)
    fr = Frame(get_code(co, path, m), m)
    fr.mode, fr.data, fr.ns = "nested", [], m.ns
    vm.run_nested(fr)
    vm.call(m.ns["tests"], ())
    vm.freeze()
    for f in m.ns.get("STRANDS", ()) + m.ns.get("THREADS", ()):
        s = vm.spawn("main")
        libmods.start_strand(vm, s, f)
        n = 0
        while vm.st.ready and n < 3000:
            n += 1
            i = vm.st.ready.pop(0)
            t = vm.st.strands[i]
            if t.status == "ready":
                vm.run_strand(t)
            if t.status == "ready" and i not in vm.st.ready:
                vm.st.ready.append(i)
            if not vm.st.ready and s.status == "wait" and s.timer:
                vm.wake(s)
        if s.error is not None:
            raise GuestError(s.error)
        assert s.status == "done", (f.name, s.status, s.frames[-1].code.name, s.frames[-1].line())


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    here = os.path.dirname(os.path.abspath(__file__))
    bad = 0
    for f in sorted(os.listdir(here)):
        if f.startswith("guest"):
            try:
                run(os.path.join(here, f))
                print(f, "ok")
            except GuestError as e:
                bad = 1
                print(f, e.obj.cls.name, e.obj.f.get("args"), e.obj.tb)
    sys.exit(bad)
