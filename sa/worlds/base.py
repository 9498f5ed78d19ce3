"""Common parts of the environment models."""
from __future__ import annotations

from ..explore import Explorer, unks_of
from ..libmods import start_strand
from ..loader import REPO, World, load_all, new_vm
from ..values import ATOM, Bound, EnumMember, ID, MISSING, Obj, Sym, TERM, VClass, VFunc, describe, mk_lin, sym_type
from ..vm import AnalysisError, Cut, Frame, GuestError

MSG = "scaled.protocol.python.message"


def short(file):
    return file[len(REPO) + 1:] if file.startswith(REPO + "/") else file.rsplit("/", 1)[-1]


def is_size(k):
    return k[0] == "rng" and len(k[1]) == 1 and k[1][0][0].k == "term" and k[1][0][0].a[0] in ("len", "truediv") and not unks_of(k[1][0][0])


def repo_frames(tb):
    return [t for t in (tb or ()) if t[0].startswith(REPO + "/")]


def site_text(tb):
    r = repo_frames(tb)
    if not r:
        r = list(tb or ())[-1:]
    return " > ".join(f"{short(f)}:{l} {n}" for f, l, n in r[-4:])


def construct_of(tb, default="?"):
    """innermost function of the repository in a traceback"""
    r = repo_frames(tb)
    return r[-1][2] if r else default


def ratio(v):
    """a number as a sum of multiples of symbols, roundings and limits at zero put aside; None when it is not one"""
    if type(v) is not Sym:
        return None
    if v.k == "lin":
        if v.a[1] != 0:
            return None
        out = {}
        for s, c in v.a[0]:
            r = ratio(s)
            if r is None:
                return None
            for x, y in r.items():
                out[x] = out.get(x, 0.0) + c * y
        return out
    if v.k in ("unk", "atom"):
        return {v: 1.0}
    if v.k != "term":
        return None
    op, a = v.a[0], v.a[1:]
    if op == "reading":
        return {v: 1.0}
    if op in ("int", "float", "round", "floor", "ceil", "trunc", "f32"):
        return ratio(a[0])
    if op in ("truediv", "floordiv") and type(a[1]) in (int, float) and a[1]:
        r = ratio(a[0])
        return None if r is None else {x: y / a[1] for x, y in r.items()}
    if op == "mul":
        for x, k in (a, a[::-1]):
            if type(k) in (int, float):
                r = ratio(x)
                return None if r is None else {s: y * k for s, y in r.items()}
    if op == "max" and len(a) == 2 and 0 in a:
        return ratio(a[1] if a[0] == 0 else a[0])
    return None


class BaseWorld(World):
    """asyncio program: strands run in the order of the ready queue"""

    counters = ()
    int_cap = 3
    timer_filter = None
    env_when_busy = True
    forget_counters = True     # counters that only count up, counting maps and facts about sizes are forgotten between reactions

    def __init__(self):
        self.props = None
        self.checks = {}

    def checked(self, what):
        self.checks[what] = self.checks.get(what, 0) + 1

    # -- reporting
    alias = None               # the property under which the alarms of all others are reported
    only = None                # ... of these others

    def alarm(self, prop, rule, construct, text, site=None):
        if self.alias is not None and prop != self.alias:
            if self.only is not None and prop not in self.only:
                return
            prop, rule = self.alias, prop + "-" + rule
        if self.props is not None and prop not in self.props:
            return
        self.explorer.alarm(prop + "/" + rule, construct, text, site)

    def stop(self):
        raise Cut()

    # -- hooks of the explorer
    def setup(self, vm):
        raise NotImplementedError

    def after_strand(self, vm, s):
        return True

    def check(self, vm):
        pass

    def env(self, vm):
        """(label, action) pairs of the environment"""
        return []

    def actions(self, vm):
        st = vm.st
        acts = []
        if st.ready:
            acts.append(("run", self.run_one))
            if not self.env_when_busy:
                return acts
        for label, act in self.env(vm):
            def go(vm, act=act):
                act(vm)
                self.run(vm)

            acts.append((label, go))
        return acts

    def run_one(self, vm):
        self.explorer.run_one()

    def run(self, vm):
        self.explorer.run_ready()

    # -- timers
    def timers(self, vm):
        out = []
        for i, s in enumerate(vm.st.strands):
            if s.status == "wait" and s.timer:
                out.append((self.owner(s), i))
        return out

    def owner(self, s):
        """what a waiting strand belongs to: first bound method of the program found in its frames"""
        for f in reversed(s.frames):
            for v in f.fast.values():
                if type(v) is Obj and v.cls.name == "cell":
                    v = v.x[0]
                if type(v) is Bound and type(v.self) is Obj and not v.self.cls.builtin and type(v.func) is VFunc and \
                        not v.func.module.external:
                    return v.self.cls.name + "." + v.func.name
        for f in reversed(s.frames):
            if not f.mod.external:
                return f.code.name
        return s.name

    def fire(self, i):
        def act(vm):
            vm.wake(vm.st.strands[i])

        return act

    # -- widening
    def normalise(self, vm):
        vm.st.mon.pop("now", None)
        mut = vm.mutable_attrs
        cap = self.int_cap
        counters = vm.counters if self.forget_counters else ()
        if self.forget_counters:
            for k in [k for k in vm.st.facts if is_size(k)]:
                del vm.st.facts[k]
        seen = set()
        todo = []

        def visit(v):
            t = type(v)
            if t is Obj:
                if not v.frozen and id(v) not in seen:
                    seen.add(id(v))
                    todo.append(v)
            elif t is tuple or t is list:
                for e in v:
                    visit(e)
            elif t is dict:
                for k, e in v.items():
                    visit(k)
                    visit(e)
            elif t is Bound:
                visit(v.self)
            elif t is Frame:
                for e in v.stack:
                    visit(e)
                for e in v.fast.values():
                    visit(e)
                visit(v.gen)
                visit(v.data)
            elif t is VFunc and not v.static:
                for e in v.closure:
                    visit(e)

        st = vm.st
        for s in st.strands:
            if s.status in ("done", "dead"):
                continue
            for f in s.frames:
                visit(f)
            visit(s.task)
            visit(s.wait)
        for n in st.thawed.values():
            visit(n)
        for v in st.overlay.values():
            visit(v)
        while todo:
            o = todo.pop()
            for k, v in o.f.items():
                t = type(v)
                if k in counters and (t is int or t is Sym):
                    if t is int or v.k != "unk":
                        vm.st.nunk += 1
                        o.f[k] = Sym("unk", vm.st.nunk, "int", 0)
                elif t is int and (v > cap or v < -cap) and k in mut:
                    o.f[k] = self.widened(vm, o, k, v)
                elif t is Sym and v.k in ("lin", "term") and k in mut and sym_type(v) in ("num", "int", "float"):
                    o.f[k] = self.widened(vm, o, k, v)
                else:
                    visit(v)
            x = o.x
            if type(x) is dict:
                if o.cls.payload == "dict":
                    if o.cls.name in ("defaultdict", "Counter") and self.forget_counters and x and \
                            all(type(k) in (str, EnumMember) and (type(v) is int or type(v) is Sym and v.k == "unk") for k, v in x.items()):
                        x.clear()
                    for k, v in x.items():
                        t = type(v)
                        if (t is int and v > 0 or t is Sym and sym_type(v) in ("num",)) and type(k) in (str, EnumMember):
                            x[k] = vm.unk("int")
                        else:
                            visit(v)
                        visit(k)
                else:
                    for k in x:
                        visit(k)
            elif x is not None:
                visit(x)

    def widened(self, vm, o, k, v):
        if type(v) is int:
            vm.st.nunk += 1
            return Sym("unk", vm.st.nunk, "int", self.int_cap + 1) if v > 0 else Sym("unk", vm.st.nunk, "int")
        from ..explore import unks_of

        us = unks_of(v)
        if not us:
            return v
        if v.k == "lin" and len(v.a[0]) == 1 and v.a[0][0][1] == 1 and v.a[1] >= 0 and v.a[0][0][0].k == "unk" and \
                len(v.a[0][0][0].a) == 3:
            vm.st.nunk += 1
            return Sym("unk", vm.st.nunk, "int", v.a[0][0][0].a[2])
        return vm.unk("int" if sym_type(v) != "float" else "float")

    # -- failures
    def on_strand_end(self, vm, s):
        if s.status == "dead":
            self.died(vm, s, s.error)

    def died(self, vm, s, err):
        pass

    def endless(self, vm, where):
        raise AnalysisError("a reaction does not end: " + where)

    # -- clocks
    def clock(self, vm, name):
        v = super().clock(vm, name)
        mon = vm.st.mon
        mon["now"] = mon.get("now", frozenset()) | {v}     # until the end of the reaction
        return v

    @staticmethod
    def clock_of(v):
        """the clock a number was read from"""
        return v.a[3] if type(v) is Sym and v.k == "unk" and len(v.a) > 3 else None

    def mixed(self, key):
        """a comparison of the readings of different clocks: their names"""
        n = {}
        for s, c in key:
            k = self.clock_of(s)
            if k is not None:
                n[k] = n.get(k, 0) + c
        return " and ".join(sorted(n)) if len(n) > 1 and any(n.values()) else None

    def clocks_compared(self, vm, key, props, what):
        """checks that a period that is compared with a limit lies between two readings of one clock, the later one taken just now"""
        m = self.mixed(key)
        if m:
            self.bad(props, "clocks", f"{what} is computed from {m}")
            return
        k = [(s, c) for s, c in key if self.clock_of(s)]
        if len(k) == 2 and not any(s in vm.st.mon.get("now", ()) for s, _ in k):
            self.bad(props, "stale", f"{what} is computed with a time that was read earlier")


class MonitorWorld(BaseWorld):
    """obligations opened by what the program receives and discharged by what it does"""

    crash_props = ""
    TEXT = {}

    def start(self, vm):
        vm.st.mon["exp"] = ()
        vm.st.mon["opt"] = ()

    def here(self):
        s = self.explorer.site()
        return construct_of(s), site_text(s)

    def bad(self, props, rule, text):
        fn, at = self.here()
        for p in props.split():
            self.alarm(p, rule, fn, f"{text} at {at}")

    def end_bad(self, props, rule, construct, text):
        self.explorer.alarm_end(self, props, rule, construct, text)

    def expect(self, vm, props, *what):
        self.checked("obligation " + what[0])
        vm.st.mon["exp"] += ((props,) + what,)

    def allow(self, vm, *what):
        if what not in vm.st.mon["opt"]:
            vm.st.mon["opt"] += (what,)

    def discharge(self, vm, *what):
        mon = vm.st.mon
        for i, e in enumerate(mon["exp"]):
            if e[1:] == what:
                mon["exp"] = mon["exp"][:i] + mon["exp"][i + 1:]
                return True
        for i, e in enumerate(mon["opt"]):
            if e == what:
                mon["opt"] = mon["opt"][:i] + mon["opt"][i + 1:]
                return True
        return False

    def settle(self, vm):
        """the reaction is over: everything owed must have happened"""
        mon = vm.st.mon
        for e in mon["exp"]:
            self.end_bad(e[0], "owed-" + e[1], e[1], self.TEXT.get(e[1], e[1] + " {2}").format(*e))
        mon["exp"] = ()
        mon["opt"] = ()

    def handling(self, vm):
        """a received message is being handled"""
        return False

    def crashed(self, vm, s, err, what):
        props = set(self.crash_props.split())
        if self.handling(vm):
            props.add("P03")
        for e in vm.st.mon["exp"]:
            props |= set(e[0].split())
        for p in sorted(props):
            self.alarm(p, "exception", construct_of(err.tb, s.name) + " " + err.cls.name,
                       f"{exc_text(err)} escapes from {what}: {site_text(err.tb)}", err.tb)

    def endless(self, vm, where):
        props = set(self.crash_props.split())
        for e in vm.st.mon["exp"]:
            props |= set(e[0].split())
        for p in sorted(props):
            self.alarm(p, "endless", where.split()[-1], f"the program runs on for ever at {where.replace(REPO + '/', '')}")

    def unread(self, sock):
        return sock is not None and sock.f["inbox"].x

    def main(self, vm, name, fn):
        """the main thread of a process"""
        s = vm.spawn(name, None)
        start_strand(vm, s, fn)
        return s


def exc_text(err):
    args = err.f.get("args", ())
    return f"{err.cls.name}({', '.join(describe(a) for a in args)})"


def load(world=None):
    vm = new_vm(world)
    load_all(vm)
    return vm


class Messages:
    """messages built and read with the program's own codecs"""

    def __init__(self, vm):
        self.vm = vm
        self.ns = vm.import_module(MSG).ns

    def __getattr__(self, n):
        return self.ns[n]

    def make(self, cls, *args):
        vm = self.vm
        o = vm.call(self.ns[cls], args)
        return self.frames_of(o)

    def frames_of(self, o):
        vm = self.vm
        tag = vm.subscr(vm.getattr(self.ns["PROTOCOL"], "inverse"), o.cls)
        fr = vm.call(vm.getattr(o, "serialize"), ())
        fr = tuple(fr.x) if type(fr) is Obj else fr
        return (vm.getattr(tag, "value"),) + tuple(fr)

    def read(self, frames):
        """frames without routing prefix -> message object or None"""
        vm = self.vm
        try:
            tag = vm.call(self.ns["MessageType"], (frames[0],))
            cls = vm.subscr(self.ns["PROTOCOL"], tag)
            return vm.call(vm.getattr(cls, "deserialize"), (vm.list(frames[1:]),))
        except GuestError:
            return None
