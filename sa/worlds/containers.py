"""The containers: every sequence of operations on a few items, compared with a mathematical model after each operation."""
from __future__ import annotations

from ..loader import load_source
from .base import *  # noqa: F401,F403
from ..explore import reach
from .base import BaseWorld, ID, Obj, GuestError, construct_of, describe, exc_text, site_text

GUEST = """
class Item:
    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return 1
"""
QUEUES = "scaled.utility.queues."


class Cfg:
    kind = "indexed"
    items = 3
    keys = 2
    priorities = (0, 1, 2)
    low = 0
    equal_hashes = False

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


class Raised:
    def __init__(self, err):
        self.name = err.cls.name
        self.err = err

    def isa(self, *names):
        return any(c.name in names for c in self.err.cls.mro)


class ContainerWorld(BaseWorld):
    """the environment calls one operation per step"""

    prop = ""

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def prepare(self, vm):
        self.mod = load_source(vm, "_driver", GUEST)

    def items_of(self, vm, n, what="item"):
        if self.cfg.equal_hashes:
            return tuple(vm.call(self.mod.ns["Item"], (f"{what}{i}",)) for i in range(n))
        return tuple(ID(what, f"{what}{i}") for i in range(n))

    def normalise(self, vm):
        o = vm.st.mon["o"]
        if "_unfinished_tasks" in o.f:
            o.f["_unfinished_tasks"] = vm.unk("int")
        super().normalise(vm)

    def make(self, vm, module, cls, *args):
        return vm.call(vm.getattr(vm.import_module(module), cls), args)

    def op(self, vm, name, *args):
        o = vm.st.mon["o"]
        self.checked("operation " + name)
        try:
            return vm.call(vm.getattr(o, name), args)
        except GuestError as e:
            return Raised(e.obj)

    def ask(self, vm, fn, *args):
        try:
            return vm.call(vm.builtins[fn], args)
        except GuestError as e:
            return Raised(e.obj)

    def contains(self, vm, x):
        try:
            return vm.truth(vm.contains(vm.st.mon["o"], x))
        except GuestError as e:
            return Raised(e.obj)

    def wrong(self, vm, rule, op, got, want):
        at = ""
        fn = op
        if type(got) is Raised:
            fn = construct_of(got.err.tb, op)
            at = ": " + site_text(got.err.tb)
            got = "raises " + exc_text(got.err)
        else:
            got = "gives " + (describe(got) if not isinstance(got, str) else got)
        cls = vm.st.mon["o"].cls.name
        m = vm.st.mon
        self.explorer.alarm(self.prop + "/" + rule, f"{cls}.{fn}",
                            f"{cls}.{op} {got} instead of {want}; the content should be {self.content(m['m'])}{at}")

    def content(self, m):
        return describe(m)

    def result(self, vm, rule, op, got, want):
        """compares the outcome of an operation; want: value, or exception names"""
        self.checked("outcome of " + op)
        if isinstance(want, tuple) and want and want[0] == "raises":
            if type(got) is not Raised or not got.isa(*want[1:]):
                self.wrong(vm, rule, op, got, " or ".join(want[1:]))
                return False
            return True
        if type(got) is Raised or not self.same(vm, got, want):
            self.wrong(vm, rule, op, got, describe(want))
            return False
        return True

    def same(self, vm, got, want):
        if want is None:
            return True
        if isinstance(want, (set, frozenset)):
            if type(got) is not Obj or not isinstance(got.x, dict):
                return False
            return len(got.x) == len(want) and all(any(vm.eq(a, b) for b in want) for a in got.x)
        if isinstance(want, bool):
            return vm.truth(got) is want
        return vm.eq(got, want)

    def env(self, vm):
        return [(label, lambda vm, f=f: (f(vm), self.observe(vm))) for label, f in self.ops(vm)]

    def label(self, vm):
        return ""

    @staticmethod
    def show(x):
        return describe(x) if type(x) is not Obj else x.f.get("name", "?")


class IndexedWorld(ContainerWorld):
    prop = "U01"

    def setup(self, vm):
        mon = vm.st.mon
        mon["items"] = self.items_of(vm, self.cfg.items)
        mon["o"] = self.make(vm, QUEUES + "async_indexed_queue", "IndexedQueue")
        mon["m"] = ()

    def content(self, m):
        return "[" + ", ".join(self.show(x) for x in m) + "]"

    def ops(self, vm):
        mon = vm.st.mon
        out = []
        for i, x in enumerate(mon["items"]):
            out.append((f"put {self.show(x)}", lambda vm, i=i: self.put(vm, i)))
            out.append((f"remove {self.show(x)}", lambda vm, i=i: self.remove(vm, i)))
        out.append(("get", self.get))
        return out

    @staticmethod
    def member(m, x):
        return any(y is x for y in m)

    def put(self, vm, i):
        mon = vm.st.mon
        x = mon["items"][i]
        r = self.op(vm, "put_nowait", x)
        if self.member(mon["m"], x):
            self.result(vm, "duplicate", "put_nowait", r, ("raises", "KeyError"))
        elif self.result(vm, "put", "put_nowait", r, None):
            mon["m"] += (x,)

    def remove(self, vm, i):
        mon = vm.st.mon
        x = mon["items"][i]
        r = self.op(vm, "remove", x)
        if not self.member(mon["m"], x):
            self.result(vm, "absent", "remove", r, ("raises", "KeyError"))
        elif self.result(vm, "remove", "remove", r, None):
            mon["m"] = tuple(y for y in mon["m"] if y is not x)

    def get(self, vm):
        mon = vm.st.mon
        r = self.op(vm, "get_nowait")
        if not mon["m"]:
            self.result(vm, "empty", "get_nowait", r, ("raises", "QueueEmpty"))
        elif self.result(vm, "order", "get_nowait", r, mon["m"][0]):
            mon["m"] = mon["m"][1:]

    def observe(self, vm):
        mon = vm.st.mon
        n = len(mon["m"])
        self.result(vm, "size", "qsize", self.op(vm, "qsize"), n)
        self.result(vm, "size", "__len__", self.ask(vm, "len", mon["o"]), n)
        self.result(vm, "size", "empty", self.op(vm, "empty"), n == 0)
        for x in mon["items"]:
            self.result(vm, "membership", "__contains__", self.contains(vm, x), self.member(mon["m"], x))


class PriorityWorld(ContainerWorld):
    prop = "U02"

    def setup(self, vm):
        mon = vm.st.mon
        mon["o"] = self.make(vm, QUEUES + "async_priority_queue", "PriorityQueue")
        mon["m"] = {}

    NAMES = tuple(b"abcdefgh"[i:i + 1] for i in range(8))

    def ops(self, vm):
        mon = vm.st.mon
        out = []
        for i in range(self.cfg.items):
            x = self.NAMES[i]
            if x not in mon["m"]:
                out.append((f"remove the absent {x}", lambda vm, x=x: self.absent(vm, "remove", x)))
                out.append((f"decrease the absent {x}", lambda vm, x=x: self.absent(vm, "decrease_priority", x)))
                out += [(f"put {p} {x}", lambda vm, x=x, p=p: self.put(vm, p, x)) for p in self.cfg.priorities]
            else:
                out.append((f"remove {x}", lambda vm, x=x: self.remove(vm, x)))
                if mon["m"][x] > self.cfg.low:
                    out.append((f"decrease {x}", lambda vm, x=x: self.decrease(vm, x)))
        if mon["m"]:
            out.append(("get", self.get))
        return out

    def put(self, vm, p, x):
        if self.result(vm, "put", "put_nowait", self.op(vm, "put_nowait", vm.list([p, x])), None):
            vm.st.mon["m"][x] = p

    def remove(self, vm, x):
        if self.result(vm, "remove", "remove", self.op(vm, "remove", x), None):
            del vm.st.mon["m"][x]

    def absent(self, vm, op, x):
        self.result(vm, "absent", op, self.op(vm, op, x), ("raises", "KeyError", "ValueError"))

    def decrease(self, vm, x):
        if self.result(vm, "decrease", "decrease_priority", self.op(vm, "decrease_priority", x), None):
            vm.st.mon["m"][x] -= 1

    def get(self, vm):
        m = vm.st.mon["m"]
        r = self.op(vm, "get_nowait")
        self.checked("outcome of get_nowait")
        if type(r) is Raised:
            return self.wrong(vm, "get", "get_nowait", r, "an entry")
        e = tuple(r.x) if type(r) is Obj and r.cls.payload == "list" else r
        if type(e) is not tuple or len(e) != 2 or e[1] not in m or m[e[1]] != e[0] or e[0] != min(m.values()):
            return self.wrong(vm, "minimum", "get_nowait", r, "an entry of minimal priority")
        del m[e[1]]

    def observe(self, vm):
        mon = vm.st.mon
        m = mon["m"]
        self.result(vm, "size", "qsize", self.op(vm, "qsize"), len(m))
        self.result(vm, "size", "__len__", self.ask(vm, "len", mon["o"]), len(m))
        if m:
            self.result(vm, "best", "max_priority", self.op(vm, "max_priority"), min(m.values()))
            self.result(vm, "size", "__len__ after max_priority", self.ask(vm, "len", mon["o"]), len(m))
        held = mentioned([mon["o"]])
        for x in self.NAMES[:self.cfg.items]:
            if (x in held) != (x in m):
                self.explorer.alarm(self.prop + "/index", mon["o"].cls.name, f"{mon['o'].cls.name} " + (
                    f"still refers to {x} that is no longer queued" if x in held else f"does not hold the queued {x}") + f"; the content should be {self.content(m)}")


def mentioned(roots):
    """the names of items in objects reachable from the roots"""
    out = set()

    def add(v):
        if type(v) is bytes:
            out.add(v)
        elif type(v) in (tuple, list, dict):
            for e in v:
                add(e)
            if type(v) is dict:
                for e in v.values():
                    add(e)

    for o in reach(roots):
        add(o.f)
        add(o.x)
    return out


class OneToManyWorld(ContainerWorld):
    prop = "U03"

    def setup(self, vm):
        mon = vm.st.mon
        mon["o"] = self.make(vm, "scaled.utility.one_to_many_dict", "OneToManyDict")
        self.keys = tuple(ID("key", f"k{i}") for i in range(self.cfg.keys))
        self.vals = tuple(ID("value", f"v{i}") for i in range(self.cfg.items))
        mon["m"] = {}                # value -> key

    def ops(self, vm):
        out = []
        for k in self.keys:
            out += [(f"add {k} {v}", lambda vm, k=k, v=v: self.add(vm, k, v)) for v in self.vals]
            out.append((f"remove_key {k}", lambda vm, k=k: self.remove_key(vm, k)))
        out += [(f"remove_value {v}", lambda vm, v=v: self.remove_value(vm, v)) for v in self.vals]
        return out

    def add(self, vm, k, v):
        m = vm.st.mon["m"]
        r = self.op(vm, "add", k, v)
        if m.get(v, k) is not k:
            self.result(vm, "second-key", "add", r, ("raises", "ValueError", "KeyError"))
        elif self.result(vm, "add", "add", r, None):
            m[v] = k

    def remove_key(self, vm, k):
        m = vm.st.mon["m"]
        r = self.op(vm, "remove_key", k)
        have = {v for v, q in m.items() if q is k}
        if not have:
            self.result(vm, "absent", "remove_key", r, ("raises", "ValueError", "KeyError"))
        elif self.result(vm, "remove", "remove_key", r, have):
            for v in have:
                del m[v]

    def remove_value(self, vm, v):
        m = vm.st.mon["m"]
        r = self.op(vm, "remove_value", v)
        if v not in m:
            self.result(vm, "absent", "remove_value", r, ("raises", "ValueError", "KeyError"))
        elif self.result(vm, "remove", "remove_value", r, m[v]):
            del m[v]

    def observe(self, vm):
        mon = vm.st.mon
        m = mon["m"]
        for k in self.keys:
            have = {v for v, q in m.items() if q is k}
            self.result(vm, "key", "__contains__", self.contains(vm, k), bool(have))
            self.result(vm, "key", "has_key", self.op(vm, "has_key", k), bool(have))
            self.result(vm, "values-of", "get_values", self.op(vm, "get_values", k), have or ("raises", "ValueError", "KeyError"))
        for v in self.vals:
            self.result(vm, "value", "has_value", self.op(vm, "has_value", v), v in m)
            self.result(vm, "key-of", "get_key", self.op(vm, "get_key", v), m.get(v) or ("raises", "ValueError", "KeyError"))
        keys = self.op(vm, "keys")
        keys = self.ask(vm, "set", keys) if type(keys) is not Raised else keys
        self.result(vm, "keys", "keys", keys, set(m.values()))
        items = self.op(vm, "items")
        items = self.ask(vm, "list", items) if type(items) is not Raised else items
        ok = type(items) is not Raised and len(items.x) == len(set(m.values())) and \
            all(self.same(vm, e[1], {v for v, q in m.items() if q is e[0]}) for e in items.x)
        if not ok:
            self.wrong(vm, "items", "items", items, "the keys with their values")
        vals = self.op(vm, "values")
        vals = self.ask(vm, "list", vals) if type(vals) is not Raised else vals
        if type(vals) is Raised or sum(len(e.x) for e in vals.x) != len(m):
            self.wrong(vm, "items", "values", vals, "the sets of values")


class KeyValueWorld(ContainerWorld):
    prop = "U03"

    def setup(self, vm):
        mon = vm.st.mon
        mon["o"] = self.make(vm, "scaled.utility.key_value_set", "KeyValueDictSet")
        self.keys = tuple(ID("key", f"k{i}") for i in range(self.cfg.keys))
        self.vals = tuple(ID("value", f"v{i}") for i in range(self.cfg.items))
        mon["m"] = frozenset()

    def ops(self, vm):
        out = []
        for k in self.keys:
            for v in self.vals:
                out.append((f"add {k} {v}", lambda vm, k=k, v=v: self.add(vm, k, v)))
                out.append((f"remove_value {k} {v}", lambda vm, k=k, v=v: self.remove_value(vm, k, v)))
            out.append((f"remove_key {k}", lambda vm, k=k: self.remove_key(vm, k)))
        return out

    def add(self, vm, k, v):
        if self.result(vm, "add", "add", self.op(vm, "add", k, v), None):
            vm.st.mon["m"] |= {(k, v)}

    def remove_value(self, vm, k, v):
        mon = vm.st.mon
        r = self.op(vm, "remove_value", k, v)
        if (k, v) not in mon["m"]:
            self.result(vm, "absent", "remove_value", r, ("raises", "ValueError", "KeyError"))
        elif self.result(vm, "remove", "remove_value", r, None):
            mon["m"] -= {(k, v)}

    def remove_key(self, vm, k):
        mon = vm.st.mon
        r = self.op(vm, "remove_key", k)
        have = {v for q, v in mon["m"] if q is k}
        if not have:
            self.result(vm, "absent", "remove_key", r, ("raises", "ValueError", "KeyError"))
        elif self.result(vm, "remove", "remove_key", r, have):
            mon["m"] = frozenset(e for e in mon["m"] if e[0] is not k)

    def observe(self, vm):
        mon = vm.st.mon
        for k in self.keys:
            have = {v for q, v in mon["m"] if q is k}
            self.result(vm, "key", "__contains__", self.contains(vm, k), bool(have))
            self.result(vm, "values-of", "get_values", self.op(vm, "get_values", k), have or ("raises", "ValueError", "KeyError"))
        items = self.op(vm, "items")
        items = self.ask(vm, "list", items) if type(items) is not Raised else items
        ok = type(items) is not Raised and len(items.x) == len({k for k, v in mon["m"]}) and \
            all(self.same(vm, e[1], {v for q, v in mon["m"] if q is e[0]}) for e in items.x)
        if not ok:
            self.wrong(vm, "items", "items", items, "the keys with their values")
        keys = self.op(vm, "keys")
        keys = self.ask(vm, "set", keys) if type(keys) is not Raised else keys
        self.result(vm, "keys", "keys", keys, {k for k, v in mon["m"]})
        vals = self.op(vm, "values")
        vals = self.ask(vm, "list", vals) if type(vals) is not Raised else vals
        if type(vals) is Raised or sum(len(e.x) for e in vals.x) != len(mon["m"]):
            self.wrong(vm, "items", "values", vals, "the sets of values")


KINDS = {"indexed": IndexedWorld, "priority": PriorityWorld, "one_to_many": OneToManyWorld, "key_value": KeyValueWorld}


def build(cfg):
    return KINDS[cfg.kind](cfg)
