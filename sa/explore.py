"""Fixpoint computation over abstract states.

A state (heap, suspended computations, facts, monitors) is put into a canonical form: objects are numbered in traversal
order, anonymous unknowns are renumbered, dead local variables are dropped (backward liveness over the bytecode), facts
about unreachable unknowns are forgotten.  The set of canonical states grows from the initial states by applying the
transfer functions (interpretation of one reaction of the program) until nothing new appears.
"""
from __future__ import annotations

import dis
import time
from collections import deque

from .values import (ATOM, Bound, EnumMember, Ext, MISSING, NULL, NotImpl, Obj, Partial, SuperProxy, Sym, TERM, TypeAlias,
                     VClass, VFunc, VMod, Wrapper, describe, mk_lin)
from .vm import AnalysisError, Code, Cut, Endless, Frame, GuestError, State, Strand, Suspend, VM


class Mark:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"%{self.n}"


class Ref:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"#{self.n}"


REFS = []


def ref(n):
    while len(REFS) <= n:
        REFS.append(Ref(len(REFS)))
    return REFS[n]


M_LIST, M_DICT, M_BOUND, M_PARTIAL, M_SUPER, M_WRAP = (Mark(n) for n in ("list", "dict", "bound", "partial", "super", "wrap"))
M_OBJ, M_FUNC, M_FRAME = Mark("obj"), Mark("func"), Mark("frame")
INTERN = {}

# ---------------------------------------------------------------------------- liveness of local variables
LIVE = {}


def liveness(code: Code):
    r = LIVE.get(code)
    if r is not None:
        return r
    n = len(code.ins)
    succ = [[] for _ in range(n)]
    use = [None] * n
    kill = [None] * n
    cells = set(code.co.co_cellvars) | set(code.co.co_freevars)
    jumps = set()
    for op, name in enumerate(dis.opname):
        if op in dis.hasjrel or op in dis.hasjabs:
            jumps.add(name)
    for i, (h, arg, av, name) in enumerate(code.ins):
        if name in jumps:
            if av < n:
                succ[i].append(av)
        if name not in ("RETURN_VALUE", "RETURN_CONST", "RAISE_VARARGS", "RERAISE", "JUMP_FORWARD", "JUMP_BACKWARD",
                        "JUMP_BACKWARD_NO_INTERRUPT") and i + 1 < n:
            succ[i].append(i + 1)
        hd = code.handler(i)
        if hd is not None:
            succ[i].append(hd[0])
        if name in ("LOAD_FAST", "LOAD_FAST_CHECK", "LOAD_FAST_AND_CLEAR", "LOAD_CLOSURE", "LOAD_DEREF", "MAKE_CELL",
                    "LOAD_FROM_DICT_OR_DEREF"):
            use[i] = av
        elif name in ("STORE_FAST", "DELETE_FAST"):
            kill[i] = av
        if name == "LOAD_FAST_AND_CLEAR":
            kill[i] = None
    live = [frozenset()] * n
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            s = set()
            for j in succ[i]:
                s |= live[j]
            hd = code.handler(i)
            if kill[i] is not None:
                s.discard(kill[i])
                if hd is not None:
                    s |= live[hd[0]] - {kill[i]}
            if use[i] is not None:
                s.add(use[i])
            if s != live[i]:
                live[i] = frozenset(s)
                changed = True
    loc_cells = cells
    if "super" in code.co.co_names and code.co.co_argcount:
        loc_cells = cells | {code.co.co_varnames[0]}
    r = LIVE[code] = [x | loc_cells for x in live]
    return r


# ---------------------------------------------------------------------------- unknowns inside symbols
HASUNK = {}


def unks_of(s):
    r = HASUNK.get(s)
    if r is None:
        if s.k == "unk":
            r = (s,)
        elif s.k == "id" or s.k == "atom":
            r = ()
        else:
            acc = {}

            def walk(x):
                if type(x) is Sym:
                    for u in unks_of(x):
                        acc[u] = True
                elif type(x) is tuple:
                    for y in x:
                        walk(y)

            walk(s.a)
            r = tuple(acc)
        HASUNK[s] = r
    return r


class Codec:
    def __init__(self, vm):
        self.vm = vm

    # -------------------------------------------------------------- encode
    def encode(self, st: State):
        index = {}
        order = []
        recs = []
        unk = {}

        def ren(s):
            if s.k == "unk":
                r = unk.get(s)
                if r is None:
                    r = unk[s] = Sym("unk", len(unk) + 1, *s.a[1:])
                return r
            if not unks_of(s):
                return s
            if s.k == "lin":
                return mk_lin({ren(x): c for x, c in s.a[0]}, s.a[1])
            return Sym(s.k, *[ren_in(x) for x in s.a])

        def ren_in(x):
            if type(x) is Sym:
                return ren(x)
            if type(x) is tuple:
                return tuple(ren_in(y) for y in x)
            return x

        def num(o):
            n = index.get(id(o))
            if n is None:
                n = index[id(o)] = len(order)
                order.append(o)
            return ref(n)

        def ev(v):
            t = type(v)
            if t is Sym:
                return v if (v.k == "id" or v.k == "atom") else ren(v)
            if t is Obj:
                return v if v.frozen else num(v)
            if t is tuple:
                return tuple([ev(e) for e in v]) if v else v
            if t is VFunc:
                return v if v.static else num(v)
            if t is Frame:
                return num(v)
            if t is Bound:
                return (M_BOUND, ev(v.func), ev(v.self))
            if t is list:
                return (M_LIST,) + tuple([ev(e) for e in v])
            if t is dict:
                return (M_DICT,) + tuple([(ev(k), ev(e)) for k, e in v.items()])
            if t is Partial:
                return (M_PARTIAL, ev(v.func), ev(v.args), tuple([(k, ev(e)) for k, e in v.kwargs.items()]))
            if t is SuperProxy:
                return (M_SUPER, v.cls, ev(v.self))
            if t is Wrapper:
                return (M_WRAP, v.kind, ev(v.func), ev(v.setter))
            if t is frozenset:
                return frozenset(ev(e) for e in v)
            return v

        def frame(f, top):
            live = liveness(f.code)
            # a suspended frame resumes at pc (retry) or after the call that is in progress
            pc = f.pc if f.pc < len(live) else len(live) - 1
            keep = live[pc] if f.pc < len(live) else frozenset()
            hd = f.code.handler(max(0, f.pc - 1))
            if hd is not None:
                keep = keep | live[hd[0]]
            fast = tuple([(k, ev(v)) for k, v in sorted(f.fast.items(), key=kname) if k in keep])
            return (M_FRAME, f.code, f.pc, tuple([ev(v) for v in f.stack]), fast, f.mod, f.kwn,
                    ev(f.gen) if f.gen is not None else None, f.mode, None if f.ns is None else ev(f.ns), ev(f.data))

        strands = st.strands
        while strands and strands[-1].status in ("done", "dead"):
            strands.pop()
        st.ready = [i for i in st.ready if i < len(strands)]
        se = []
        for s in strands:
            if s.status in ("done", "dead"):
                se.append((s.name, s.status))
            else:
                se.append((s.name, s.status, tuple([frame(f, f is s.frames[-1]) for f in s.frames]), ev(s.exc), ev(s.wait),
                           s.cancel, ev(s.task), s.timer, ev(s.info)))
        mon = tuple([(k, ev(v)) for k, v in sorted(st.mon.items(), key=kname)])
        over = tuple([(k, ev(v)) for k, v in sorted(st.overlay.items(), key=lambda p: repr(p[0]))])
        i = 0
        thawed = []
        todo = list(st.thawed.items())
        # thawed copies are part of the state as soon as they exist
        for o, n in todo:
            thawed.append((o, num(n)))
        thawed.sort(key=lambda p: p[0].serial)
        while i < len(order):
            o = order[i]
            i += 1
            if type(o) is Obj:
                f = tuple([(k, ev(v)) for k, v in sorted(o.f.items(), key=kname)])
                x = o.x
                if type(x) is dict:
                    items = x.items()
                    if o.cls.payload == "set":
                        items = sorted(items, key=krepr)
                    x = (M_DICT,) + tuple([(ev(k), ev(e)) for k, e in items])
                elif type(x) is Frame:
                    x = frame(x, False)
                elif x is not None:
                    x = ev(x)
                rec = (M_OBJ, o.cls, f, x, o.tb if type(o.tb) is not list else tuple(o.tb))
            elif type(o) is VFunc:
                rec = (M_FUNC, o.code, o.module, o.qualname, ev(tuple(o.defaults)), ev(o.kwdefaults), ev(tuple(o.closure)),
                       ev(o.attrs))
            else:
                rec = frame(o, False)
            recs.append(INTERN.setdefault(rec, rec))
        facts = []
        for k, v in st.facts.items():
            us = facts_unks(k)
            if us is None:
                continue
            if us:
                if any(u not in unk for u in us):
                    continue
                k = tuple(ren_in(x) for x in k)
            facts.append((k, v))
        facts.sort(key=repr)
        head = (tuple(se), tuple(st.ready), tuple(thawed), over, mon, tuple(facts), len(unk))
        head = INTERN.setdefault(head, head)
        return (head, tuple(recs))

    # -------------------------------------------------------------- decode
    def decode(self, key):
        head, recs = key
        se, ready, thawed, over, mon, facts, nunk = head
        objs = []
        for n, r in enumerate(recs):
            m = r[0]
            if m is M_OBJ:
                o = Obj(r[1])
                o.serial = n + 1
            elif m is M_FUNC:
                o = VFunc(r[1], r[2], r[3])
            else:
                o = Frame(r[1], r[5])
            objs.append(o)

        def dv(v):
            t = type(v)
            if t is Ref:
                return objs[v.n]
            if t is tuple and v:
                h = v[0]
                if type(h) is Mark:
                    if h is M_BOUND:
                        return Bound(dv(v[1]), dv(v[2]))
                    if h is M_LIST:
                        return [dv(e) for e in v[1:]]
                    if h is M_DICT:
                        return {dv(k): dv(e) for k, e in v[1:]}
                    if h is M_PARTIAL:
                        return Partial(dv(v[1]), dv(v[2]), {k: dv(e) for k, e in v[3]})
                    if h is M_SUPER:
                        return SuperProxy(v[1], dv(v[2]))
                    if h is M_WRAP:
                        return Wrapper(v[1], dv(v[2]), dv(v[3]))
                    if h is M_FRAME:
                        return fill(Frame(v[1], v[5]), v)
                return tuple([dv(e) for e in v])
            if t is frozenset:
                return frozenset(dv(e) for e in v)
            return v

        def fill(f, r):
            _, f.code, f.pc, stack, fast, f.mod, f.kwn, gen, f.mode, ns, data = r
            f.stack = [dv(v) for v in stack]
            f.fast = {k: dv(v) for k, v in fast}
            f.gen = dv(gen)
            f.ns = dv(ns)
            f.data = dv(data)
            return f

        for o, r in zip(objs, recs):
            m = r[0]
            if m is M_OBJ:
                o.f = {k: dv(v) for k, v in r[2]}
                o.x = dv(r[3])
                o.tb = r[4]
            elif m is M_FUNC:
                o.defaults, o.kwdefaults, o.closure, o.attrs = dv(r[4]), dv(r[5]), dv(r[6]), dv(r[7])
            else:
                fill(o, r)
        st = State()
        for e in se:
            s = Strand(e[0])
            s.status = e[1]
            if len(e) > 2:
                s.frames = [dv(f) for f in e[2]]
                s.exc, s.wait, s.cancel, s.task, s.timer, s.info = dv(e[3]), dv(e[4]), e[5], dv(e[6]), e[7], dv(e[8])
            st.strands.append(s)
        st.ready = list(ready)
        st.thawed = {o: dv(n) for o, n in thawed}
        st.overlay = {k: dv(v) for k, v in over}
        st.mon = {k: dv(v) for k, v in mon}
        st.facts = dict(facts)
        st.nunk = nunk
        st.serial = len(objs) + 1
        return st


def kname(p):
    return p[0]


def krepr(p):
    k = p[0]
    return repr(k) if type(k) is not Obj else f"~{k.cls.name}{k.serial:06d}"


def facts_unks(k):
    """unknowns in a fact key; None: the fact is not kept"""
    acc = []

    def walk(x):
        t = type(x)
        if t is Sym:
            acc.extend(unks_of(x))
        elif t is tuple:
            for y in x:
                if walk(y) is None and False:
                    return
        elif t is Obj or t is int and False:
            acc.append(None)

    walk(k)
    if k[0] == "truth" and type(k[1]) is int:
        return None
    if None in acc:
        return None
    return acc


# ---------------------------------------------------------------------------- alarms
class Alarm:
    def __init__(self, rule, construct, text, trace, site):
        self.rule, self.construct, self.text, self.trace, self.site = rule, construct, text, trace, site

    def __repr__(self):
        return f"{self.rule} [{self.construct}]: {self.text}"


class Explorer:
    def __init__(self, vm: VM, world, limit=200000, seconds=600, settle=16, stop_at=None):
        self.vm = vm
        self.world = world
        self.codec = Codec(vm)
        self.index = {}
        self.keys = []
        self.parent = []
        self.labels = []
        self.succ = []
        self.quiescent = []
        self.alarms = {}
        self.limit = limit
        self.seconds = seconds
        self.settle = settle
        self.transitions = 0
        self.complete = True
        self.cuts = 0
        self.stop_at = stop_at
        vm.world = world
        world.explorer = self

    # -------------------------------------------------------------- alarms
    def alarm(self, rule, construct, text, site=None):
        k = (rule, construct)
        if k not in self.alarms:
            self.alarms[k] = Alarm(rule, construct, text, self.trace(), self.site() if site is None else site)

    def fresh(self):
        known = getattr(self, "known", None)
        return sum(1 for a in self.alarms.values()
                   if known is None or not known({"rule": a.rule, "construct": str(a.construct), "text": a.text}))

    def alarm_end(self, world, props, rule, construct, text):
        """something is missing or wrong at the end of a reaction"""
        for p in props.split():
            world.alarm(p, rule, construct, text, ())

    def site(self):
        c = self.vm.cur
        if c is None or not c.frames:
            return None
        return [(f.code.file, f.line(), f.code.name) for f in c.frames]

    def trace_to(self, n):
        out = []
        while n is not None and self.parent[n] is not None:
            n, lab = self.parent[n]
            out.append(lab)
        out.reverse()
        return out

    def cannot_reach(self, goal):
        """states from which no state satisfying goal(label) is reachable"""
        pred = [[] for _ in self.keys]
        for n, ss in enumerate(self.succ):
            for m in ss:
                pred[m].append(n)
        ok = [bool(goal(x)) for x in self.labels]
        todo = [n for n, o in enumerate(ok) if o]
        while todo:
            n = todo.pop()
            for m in pred[n]:
                if not ok[m]:
                    ok[m] = True
                    todo.append(m)
        return [n for n, o in enumerate(ok) if not o]

    def trace(self):
        out = []
        if getattr(self, "label", None):
            taken = list(self.vm.taken)
            out.append(self.label + (" " + choice_text(taken) if taken else ""))
        n = getattr(self, "current", None)
        while n is not None:
            p = self.parent[n]
            if p is None:
                break
            n, lab = p
            out.append(lab)
        out.reverse()
        return out

    # -------------------------------------------------------------- stepping
    def run_ready(self):
        """run the strands in the order of the ready queue until nothing is runnable; a program that keeps switching
        without input is followed until it repeats a state of this very reaction"""
        vm = self.vm
        n = 0
        seen = None
        while vm.st.ready:
            n += 1
            if n > self.settle:
                now = vm.st.mon.get("now")
                self.world.normalise(vm)
                key = self.codec.encode(vm.st)
                if now is not None:
                    vm.st.mon["now"] = now
                if key in self.index or seen is not None and key in seen:
                    return False
                if seen is None:
                    seen = set()
                seen.add(key)
                if n > self.settle + 400:
                    return False
            if not self.run_one():
                return True
        return True

    def run_one(self):
        vm = self.vm
        st = vm.st
        i = st.ready.pop(0)
        s = st.strands[i]
        if s.status in ("done", "dead", "wait"):
            return True
        vm.steps = vm.decided = 0
        vm.run_strand(s)
        if s.status == "ready" and i not in st.ready:
            st.ready.append(i)
        return self.world.after_strand(vm, s)

    def step_strand(self, i):
        vm = self.vm
        st = vm.st
        s = st.strands[i]
        if i in st.ready:
            st.ready.remove(i)
        vm.steps = vm.decided = 0
        if vm.preempt:
            vm.shared = shared_objects(st)
        vm.run_strand(s)
        if s.status == "ready" and i not in st.ready:
            st.ready.append(i)
        self.world.after_strand(vm, s)

    def branches(self, key, action):
        """all outcomes of an action from a state"""
        vm = self.vm
        world = self.world
        prefix = []
        while True:
            vm.st = self.codec.decode(key) if key is not None else State()
            vm.choices = prefix
            vm.taken = []
            vm.steps = vm.decided = 0
            vm.cur = None
            self.label = None
            ok = True
            try:
                action(vm)
            except Cut:
                ok = False
                self.cuts += 1
            except Endless as e:
                world.endless(vm, str(e))
                ok = False
                self.cuts += 1
            except GuestError as e:
                self.label = "environment"
                o = e.obj
                raise AnalysisError(f"exception escaped to the environment model: {o.cls.name} {o.f.get('args')} {o.tb}")
            self.transitions += 1
            if ok:
                yield [t for t in vm.taken]
            taken = vm.taken
            while taken and taken[-1][0] + 1 >= taken[-1][1]:
                taken.pop()
            if not taken:
                return
            prefix = [c for c, n, l in taken[:-1]] + [taken[-1][0] + 1]

    def add(self, src, label):
        vm = self.vm
        self.world.normalise(vm)
        key = self.codec.encode(vm.st)
        n = self.index.get(key)
        if n is None:
            n = len(self.keys)
            self.index[key] = n
            self.keys.append(key)
            self.parent.append(None if src is None else (src, label))
            self.labels.append(self.world.label(vm))
            self.succ.append([])
            self.work.append(n)
        if src is not None:
            self.succ[src].append(n)
        return n

    def run(self):
        vm, world = self.vm, self.world
        self.work = deque()
        t0 = time.time()
        self.current = None
        for taken in self.branches(None, world.setup):
            self.label = "start " + choice_text(taken)
            self.add(None, self.label)
        while self.work:
            if len(self.keys) > self.limit or time.time() - t0 > self.seconds:
                self.complete = False
                break
            if self.stop_at is not None and self.alarms and self.fresh() >= self.stop_at:
                self.complete = False
                break
            n = self.work.popleft()
            key = self.keys[n]
            self.current = n
            vm.st = self.codec.decode(key)
            vm.taken, vm.choices = [], []
            self.label = None
            acts = world.actions(vm)
            for label, act in acts:
                def go(vm, act=act, label=label):
                    self.label = label
                    act(vm)

                for taken in self.branches(key, go):
                    self.label = label + (" " + choice_text(taken) if taken else "")
                    self.world.check(vm)
                    self.add(n, self.label)
        self.label = None
        conclude = getattr(world, "conclude", None)
        if conclude is not None:
            conclude()
        self.elapsed = time.time() - t0
        return self


def reach(roots):
    """objects reachable from values"""
    seen = set()
    todo = list(roots)
    frames = set()
    while todo:
        v = todo.pop()
        t = type(v)
        if t is Obj:
            if v in seen or v.frozen:
                continue
            seen.add(v)
            todo.extend(v.f.values())
            x = v.x
            if type(x) is dict:
                todo.extend(x.keys())
                todo.extend(x.values())
            elif type(x) in (list, tuple):
                todo.extend(x)
            elif x is not None:
                todo.append(x)
        elif t is tuple or t is list or t is frozenset:
            todo.extend(v)
        elif t is dict:
            todo.extend(v.keys())
            todo.extend(v.values())
        elif t is Bound:
            todo.append(v.self)
            todo.append(v.func)
        elif t is VFunc:
            if not v.static and id(v) not in frames:
                frames.add(id(v))
                todo.extend(v.closure)
                todo.extend(v.defaults)
                todo.extend(v.attrs.values())
        elif t is Frame:
            if id(v) not in frames:
                frames.add(id(v))
                todo.extend(v.stack)
                todo.extend(v.fast.values())
                todo.append(v.gen)
                todo.append(v.data)
        elif t is Partial:
            todo.append(v.func)
            todo.extend(v.args)
            todo.extend(v.kwargs.values())
        elif t is SuperProxy:
            todo.append(v.self)
        elif t is Wrapper:
            todo.append(v.func)
    return seen


def shared_objects(st):
    """objects that two threads can reach"""
    once = reach(list(st.overlay.values()) + list(st.thawed.values()))
    twice = set(once)
    for s in st.strands:
        if s.status in ("done", "dead"):
            continue
        r = reach(list(s.frames) + [s.wait])
        twice |= once & r
        once |= r
    return twice


def choice_text(taken):
    t = [f"{l}={'yes' if c == 0 else 'no'}" if n == 2 else f"{l}#{c}" for c, n, l in taken if l]
    return "{" + "; ".join(t) + "}" if t else ""
