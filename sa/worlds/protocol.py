"""The message codecs: for every message type and shape, what is decoded from the encoded frames equals the message."""
from __future__ import annotations

import ast
import itertools
from fractions import Fraction

from ..loader import SOURCES
from ..values import sym_type
from .base import *  # noqa: F401,F403
from .base import BaseWorld, ID, ATOM, MISSING, MSG, Obj, Sym, VClass, GuestError, AnalysisError, construct_of, describe, exc_text, short, site_text

INT_MAX = 2 ** 32 - 1


class Cfg:
    sizes = (0, 1, 2)
    large = ()
    seeds = ("distinct", "equal", "empty")

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


# ---------------------------------------------------------------------------- types of the fields
def class_node(tree, name):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name == name:
            return n
    return None


FIELDS = {}


def field_types(vm, cls):
    """(name, type expression) of the constructor's parameters in order"""
    r = FIELDS.get(cls)
    if r is None:
        r = FIELDS[cls] = _field_types(vm, cls)
    return r


def _field_types(vm, cls):
    if cls.dc_fields is None:
        raise AnalysisError(f"{cls.name} is not a dataclass")
    anns = {}
    for c in reversed(cls.mro):
        m = vm.modules.get(c.module) if not c.builtin else None
        if m is None or not m.file or m.external:
            continue
        node = class_node(SOURCES.tree(m.file), c.name)
        for s in node.body if node is not None else ():
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                anns[s.target.id] = (s.annotation, m)
    return [(f[0],) + anns[f[0]] for f in cls.dc_fields if f[3]]


def parse(vm, node, m):
    """type expression -> structure"""
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        node = ast.parse(node.value, mode="eval").body
    if isinstance(node, ast.Constant) and node.value is None:
        return ("none",)
    if isinstance(node, (ast.Name, ast.Attribute)):
        name = node.id if isinstance(node, ast.Name) else node.attr
        if isinstance(node, ast.Name):
            v = m.ns.get(name, vm.builtins.get(name, MISSING))
            if type(v) is VClass:
                if v.is_enum:
                    return ("enum", v)
                if v.builtin:
                    return ("plain", v.name)
                return ("obj", v)
        if name in ("bytes", "int", "float", "bool", "str"):
            return ("plain", name)
        raise AnalysisError(f"type {name} of a message field")
    if isinstance(node, ast.Subscript):
        base = node.value.id if isinstance(node.value, ast.Name) else node.value.attr
        args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
        base = base.lower()
        if base == "optional":
            return parse(vm, args[0], m)
        if base == "tuple" and (len(args) != 2 or not isinstance(args[1], ast.Constant)):
            return ("tuple", tuple(parse(vm, a, m) for a in args))
        if base in ("list", "sequence", "iterable", "tuple"):
            return ("list", parse(vm, args[0], m))
        if base in ("set", "frozenset"):
            return ("set", parse(vm, args[0], m))
        if base in ("dict", "mapping"):
            return ("dict", parse(vm, args[0], m), parse(vm, args[1], m))
    raise AnalysisError(f"type {ast.unparse(node)} of a message field")


def dims(vm, t, path=()):
    """collections inside a type"""
    k = t[0]
    if k in ("list", "set"):
        return [path] + dims(vm, t[1], path + ("e",))
    if k == "dict":
        return [path] + dims(vm, t[1], path + ("k",)) + dims(vm, t[2], path + ("v",))
    if k == "tuple":
        return [d for i, x in enumerate(t[1]) for d in dims(vm, x, path + (i,))]
    if k == "obj":
        return [d for n, a, m in field_types(vm, t[1]) for d in dims(vm, parse(vm, a, m), path + (n,))]
    return []


class Builder:
    def __init__(self, vm, sizes, seed, member=None):
        self.vm, self.sizes, self.seed, self.member = vm, sizes, seed, member
        self.ranges = {}

    def build(self, t, path, label, n=0):
        """a symbolic value of the type; path identifies the collection, label the value"""
        vm = self.vm
        k = t[0]
        if k == "plain":
            if t[1] in ("bytes", "str"):
                if self.seed == "empty":
                    return b"" if t[1] == "bytes" else ""
                if self.seed == "equal":
                    label = label.rstrip("0123456789")
                return ID("b", label) if t[1] == "bytes" else ATOM(label, "str")
            if t[1] == "bool":
                return bool(n % 2) if self.seed != "distinct" else ATOM(label, "bool")
            if self.seed == "empty":
                return 0 if t[1] == "int" else 0.0
            a = ATOM(label, t[1])
            self.ranges[a] = (0, 2 ** 48 if "rss" in label else INT_MAX if t[1] == "int" else 10 ** 6)
            return a
        if k == "enum":
            ms = list(dict.fromkeys(t[1].members.values()))
            return ms[(self.member.get(path, 0) + n) % len(ms)]
        if k == "obj":
            return vm.call(t[1], tuple(self.build(parse(vm, a, m), path + (f,), f"{label}.{f}", n) for f, a, m in field_types(vm, t[1])))
        if k == "tuple":
            return tuple(self.build(x, path + (i,), f"{label}.{i}", n) for i, x in enumerate(t[1]))
        size = self.sizes[path] + (n % 3 if self.seed == "distinct" and self.sizes[path] < 10 else 0)
        if k == "list":
            return vm.list([self.build(t[1], path + ("e",), f"{label}.{i}", i) for i in range(size)])
        if k == "set":
            return vm.call(vm.builtins["set"], (vm.list([self.build(t[1], path + ("e",), f"{label}.{i}", i) for i in range(size)]),))
        if k == "dict":
            d = vm.dict({})
            for i in range(size):
                key = self.build(t[1], path + ("k",), f"{label}.k{i}", i)
                vm.setitem(d, key, self.build(t[2], path + ("v",), f"{label}.v{i}", i)) if hasattr(vm, "setitem") else \
                    d.x.__setitem__(key, self.build(t[2], path + ("v",), f"{label}.v{i}", i))
            return d
        raise AnalysisError(k)


def enums(vm, t, path=()):
    k = t[0]
    if k == "enum":
        return [(path, len(dict.fromkeys(t[1].members.values())))]
    if k in ("list", "set"):
        return enums(vm, t[1], path + ("e",))
    if k == "dict":
        return enums(vm, t[1], path + ("k",)) + enums(vm, t[2], path + ("v",))
    if k == "tuple":
        return [d for i, x in enumerate(t[1]) for d in enums(vm, x, path + (i,))]
    if k == "obj":
        return [d for n, a, m in field_types(vm, t[1]) for d in enums(vm, parse(vm, a, m), path + (n,))]
    return []


def element(vm, t, path):
    """type of the elements of the collection at a path"""
    for p in path:
        if t[0] == "obj":
            t = next(parse(vm, a, m) for n, a, m in field_types(vm, t[1]) if n == p)
        elif t[0] == "tuple":
            t = t[1][p]
        else:
            t = t[2] if p == "v" else t[1]
    return t[1] if t[0] != "dict" else ("tuple", t[1:])


def top_dims(path):
    return len([p for p in path if p in ("e", "v", "k")])


# ---------------------------------------------------------------------------- comparison
def scaled_of(v):
    """v as (symbol, factor, largest rounding error in units of the symbol)"""
    if v.k in ("atom", "unk"):
        return v, Fraction(1), Fraction(0)
    if v.k == "lin":
        if len(v.a[0]) != 1 or v.a[1] != 0:
            return None
        (s, c), = v.a[0]
        r = scaled_of(s)
        return r and (r[0], r[1] * Fraction(c), r[2])
    if v.k != "term":
        return None
    op = v.a[0]
    if op == "f32" or op == "float":
        r = scaled_of(v.a[-1])
        return r
    if op in ("trunc", "int", "floor", "ceil", "round") and type(v.a[1]) is Sym:
        r = scaled_of(v.a[1])
        if r is None or r[1] == 0:
            return None
        unit = Fraction(1) if op != "round" or len(v.a) < 3 or type(v.a[2]) is not int else Fraction(1, 10 ** v.a[2])
        return r[0], r[1], max(r[2], abs(unit / r[1]))
    if op in ("truediv", "mul", "floordiv") and type(v.a[1]) is Sym and type(v.a[2]) in (int, float) and v.a[2]:
        r = scaled_of(v.a[1])
        f = Fraction(v.a[2])
        if r is None:
            return None
        f = r[1] * f if op == "mul" else r[1] / f
        return r[0], f, max(r[2], abs(1 / f)) if op == "floordiv" else r[2]
    if op == "mul" and type(v.a[2]) is Sym and type(v.a[1]) in (int, float):
        r = scaled_of(v.a[2])
        return r and (r[0], r[1] * Fraction(v.a[1]), r[2])
    return None


def same(vm, a, b, path=""):
    """None or where the values differ"""
    if type(a) is Sym and type(b) is Sym:
        if a is b:
            return None
        if a.k == "atom" and sym_type(a) == "float":
            r = scaled_of(b)
            if r is not None and r[0] is a and abs(r[1] - 1) < Fraction(1, 10 ** 9) and r[2] <= Fraction(1, 100):
                return None
        return f"{path} is {describe(b)} instead of {describe(a)}"
    if type(a) is tuple or type(a) is Obj and a.cls.payload == "list":
        x = a if type(a) is tuple else a.x
        y = b if type(b) is tuple else b.x if type(b) is Obj and b.cls.payload == "list" else None
        if y is None or len(x) != len(y):
            return f"{path} is {describe(b)} instead of {describe(a)}"
        for i, (p, q) in enumerate(zip(x, y)):
            d = same(vm, p, q, f"{path}[{i}]")
            if d:
                return d
        return None
    if type(a) is Obj:
        if type(b) is not Obj:
            return f"{path} is {describe(b)} instead of {describe(a)}"
        if a.cls.payload in ("dict", "set"):
            if b.cls.payload != a.cls.payload or len(a.x) != len(b.x) or set(a.x) != set(b.x):
                return f"{path} is {describe(b)} instead of {describe(a)}"
            if a.cls.payload == "dict":
                if list(a.x) != list(b.x):
                    return f"{path} has the order {describe(list(b.x))} instead of {describe(list(a.x))}"
                for k in a.x:
                    d = same(vm, a.x[k], b.x[k], f"{path}[{describe(k)}]")
                    if d:
                        return d
            return None
        if a.cls is not b.cls:
            return f"{path} is a {b.cls.name} instead of a {a.cls.name}"
        for f in a.f:
            if f not in b.f:
                return f"{path}.{f} is missing"
            d = same(vm, a.f[f], b.f[f], f"{path}.{f}" if path else f)
            if d:
                return d
        return None
    if type(a) in (int, float, bool) and type(b) in (int, float, bool):
        return None if a == b else f"{path} is {b!r} instead of {a!r}"
    return None if type(a) is type(b) and a == b else f"{path} is {describe(b)} instead of {describe(a)}"


RAISED = object()


class ProtocolWorld(BaseWorld):
    struct_ranges = True

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def prepare(self, vm):
        c = self.cfg
        ns = vm.import_module(MSG).ns
        self.protocol = ns["PROTOCOL"]
        self.tags = ns["MessageType"]
        self.classes = []
        for tag in dict.fromkeys(self.tags.members.values()):
            try:
                cls = vm.subscr(self.protocol, tag)
            except GuestError:
                continue
            self.classes.append((tag, cls))
        self.variants = []
        for tag, cls in self.classes:
            t = ("obj", cls)
            ds, es = dims(vm, t), enums(vm, t)
            top = [e for e in es if top_dims(e[0]) == 0]
            shapes = [dict(zip(ds, s)) for s in itertools.product(c.sizes, repeat=len(ds))]
            for n in c.large:
                for x in ds:
                    k = element(vm, t, x)
                    m = min(n, 300) if dims(vm, k) else n // 2 if k[0] == "obj" else n
                    shapes.append({**{d: 1 for d in ds}, x: m})
            if not c.sizes:
                shapes = [s for s in shapes if s]
            members = [dict(zip([e[0] for e in top], m)) for m in itertools.product(*[range(e[1]) for e in top])]
            for shape in shapes:
                for seed in c.seeds if max(shape.values(), default=0) < 10 else ("distinct",):
                    for member in members if max(shape.values(), default=0) < 1000 else members[:1]:
                        self.variants.append((cls, tag, shape, seed, member))

    def setup(self, vm):
        mon = vm.st.mon
        mon["v"] = vm.choose(len(self.variants), "message")

    def label(self, vm):
        return ""

    def interval(self, e):
        if type(e) in (int, float):
            return e, e
        if e in self.ranges:
            return self.ranges[e]
        if e.k == "lin":
            lo = hi = e.a[1]
            for s, c in e.a[0]:
                a, b = self.interval(s)
                lo, hi = lo + min(a * c, b * c), hi + max(a * c, b * c)
            return lo, hi
        if e.k == "term" and e.a[0] in ("trunc", "int", "float", "floor", "round", "f32"):
            return self.interval(e.a[1])
        if e.k == "term" and e.a[0] in ("mul", "truediv", "floordiv"):
            a, b = self.interval(e.a[1])
            c, d = self.interval(e.a[2])
            if e.a[0] == "mul":
                v = (a * c, a * d, b * c, b * d)
            elif c > 0:
                v = (a / c, a / d, b / c, b / d)
            else:
                v = (-1e99, 1e99)
            return min(v), max(v)
        return -1e99, 1e99

    def force_rel(self, vm, key, op_, bound):
        lo = hi = 0
        for s, c in key:
            a, b = self.interval(s)
            lo, hi = lo + min(a * c, b * c), hi + max(a * c, b * c)
        if op_ == "<":
            return True if hi < bound else False if lo >= bound else None
        if op_ == "<=":
            return True if hi <= bound else False if lo > bound else None
        if op_ == ">":
            return True if lo > bound else False if hi <= bound else None
        if op_ == ">=":
            return True if lo >= bound else False if hi < bound else None
        return None

    def env(self, vm):
        if vm.st.mon["v"] is None:
            return []
        cls, tag, shape, seed, member = self.variants[vm.st.mon["v"]]
        what = f"{cls.name} " + (f"with sizes {list(shape.values())} " if shape else "") + f"of {seed} values"
        return [(what, lambda vm: self.round_trip(vm, cls, tag, shape, seed, member, what))]

    def bad(self, rule, construct, text):
        self.alarm("P01", rule, construct, text)

    def step(self, vm, what, cls, doing, fn):
        try:
            return fn()
        except GuestError as e:
            self.bad("exception", f"{construct_of(e.obj.tb, cls.name)} {e.obj.cls.name}",
                     f"{doing} a {what} raises {exc_text(e.obj)}: {site_text(e.obj.tb)}")
            return RAISED

    def round_trip(self, vm, cls, tag, shape, seed, member, what):
        vm.st.mon["v"] = None
        vm.budget = 30000000 if max(shape.values(), default=0) > 1000 else 400000
        b = Builder(vm, shape, seed, member)
        self.ranges = b.ranges
        m = b.build(("obj", cls), (), "m")
        frames = self.step(vm, what, cls, "encoding", lambda: vm.call(vm.getattr(m, "serialize"), ()))
        if frames is RAISED:
            return
        self.checked("encoded " + cls.name)
        fr = frames if type(frames) is tuple else tuple(frames.x) if type(frames) is Obj and frames.cls.payload == "list" else None
        if fr is None:
            fr = self.step(vm, what, cls, "sending", lambda: vm.call(vm.builtins["list"], (frames,)))
            if fr is RAISED:
                return
            fr = tuple(fr.x)
        for i, f in enumerate(fr):
            if not (type(f) is bytes or type(f) is Sym and sym_type(f) == "bytes"):
                return self.bad("frame", cls.name + ".serialize", f"frame {i} of a {what} is {describe(f)}, not bytes")
        if not fr:
            return self.bad("frame", cls.name + ".serialize", f"a {what} is encoded without any frame, its receiver drops it")
        back = self.step(vm, what, cls, "decoding", lambda: vm.call(vm.getattr(cls, "deserialize"), (vm.list(fr),)))
        if back is RAISED:
            return
        self.checked("decoded " + cls.name)
        d = same(vm, m, back)
        if d:
            self.bad("value", cls.name + ".deserialize", f"a {what} is decoded with another value: {d}")


# ---------------------------------------------------------------------------- registry
def registry(vm, alarm, count):
    """P02"""
    mod = vm.import_module(MSG)
    ns = mod.ns
    protocol, tags = ns["PROTOCOL"], ns["MessageType"]
    classes = {}
    for name, tag in tags.members.items():
        count("message types")
        try:
            cls = vm.subscr(protocol, tag)
        except GuestError:
            alarm("P02/unregistered", "MessageType." + name, f"the declared message type {name} has no codec class")
            continue
        if cls in classes and classes[cls] is not tag:
            alarm("P02/ambiguous", "MessageType." + name, f"{name} and {classes[cls].name} share the codec class {cls.name}")
        classes[cls] = tag
        try:
            back = vm.subscr(vm.getattr(protocol, "inverse"), cls)
            wire = vm.call(tags, (vm.getattr(back, "value"),))
            again = vm.subscr(protocol, wire)
        except GuestError as e:
            alarm("P02/inverse", cls.name, f"the tag of {cls.name} cannot be found: {exc_text(e.obj)}")
            continue
        if again is not cls or back is not tag:
            alarm("P02/inverse", cls.name, f"{cls.name} is sent with the tag of {again.name}")
        if type(tag.value) is not bytes or not tag.value:
            alarm("P02/tag", "MessageType." + name, f"the wire tag of {name} is {tag.value!r}")
    # enumerations carried on the wire
    wire = {tags}
    for cls in classes:
        todo = [("obj", cls)]
        while todo:
            t = todo.pop()
            if t[0] == "enum":
                wire.add(t[1])
            elif t[0] == "obj":
                todo += [parse(vm, a, m) for _, a, m in field_types(vm, t[1])]
            elif t[0] == "tuple":
                todo += t[1]
            elif t[0] in ("list", "set", "dict"):
                todo += t[1:]
    for e in sorted(wire, key=lambda c: c.name):
        m = vm.modules[e.module]
        node = class_node(SOURCES.tree(m.file), e.name)
        names = [t.id for s in node.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)]
        seen = {}
        for n in names:
            mem = e.members.get(n)
            if mem is None:
                continue
            count("enumeration members")
            if mem.value in seen:
                alarm("P02/value", f"{e.name}.{n}", f"{e.name}.{n} and {e.name}.{seen[mem.value]} have the same value {mem.value!r} on the wire")
            seen.setdefault(mem.value, n)
    # what is sent somewhere
    base = None
    for cls in classes:
        mro = [c for c in cls.mro if not c.builtin and c.name not in ("object", "ABC")]
        base = set(mro) if base is None else base & set(mro)
    if not base:
        raise AnalysisError("the message classes have no common base")
    for m in list(vm.modules.values()):
        if m.external or not m.file:
            continue
        for n in ast.walk(SOURCES.tree(m.file)):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
                v = m.ns.get(name) or ns.get(name)
                if type(v) is VClass and not v.builtin and any(b in v.mro for b in base) and v not in base:
                    count("constructions of messages")
                    if v not in classes:
                        alarm("P02/unsendable", v.name, f"{v.name} is built at {short(m.file)}:{n.lineno} but not registered, it cannot be sent")
