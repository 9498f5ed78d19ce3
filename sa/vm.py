"""Abstract interpreter for CPython 3.12 code objects.

The modules of the analysed program are compiled (never imported or executed) and their bytecode - the compiler's
intermediate representation - is interpreted over the abstract values of values.py.  Operations whose outcome is not
determined by the abstract state branch through `choose`; the explorer enumerates the branches by re-interpreting a step
with every choice list.
"""
from __future__ import annotations

import dis
import functools
import os
import sys

from .values import (ATOM, Bound, EnumMember, Ext, ID, MISSING, NULL, NotImpl, Obj, Partial, SuperProxy, Sym, TERM,
                     TypeAlias, VClass, VFunc, VMod, Wrapper, describe, is_num, lin_add, lin_of, lin_scale, mk_lin,
                     sym_type)

assert sys.version_info[:2] == (3, 12), "bytecode of CPython 3.12 is interpreted"

CO_GENERATOR, CO_COROUTINE, CO_ASYNC_GEN, CO_VARARGS, CO_VARKEYWORDS = 0x20, 0x80, 0x200, 0x4, 0x8


class GuestError(Exception):
    """an exception of the analysed program"""

    def __init__(self, obj):
        self.obj = obj


class Endless(Exception):
    """a reaction runs on for ever without a decision that could end it"""


class Suspend(Exception):
    """the strand stops before the current instruction, which is retried later"""


class Cut(Exception):
    """this path is not explored further (bounded loop, impossible branch)"""


class AnalysisError(Exception):
    """the analysis met something it cannot interpret"""


class Code:
    __slots__ = ("co", "ins", "table", "name", "file", "lines", "uid", "consts", "module", "ncalls")
    count = 0

    def __init__(self, co, file, module):
        self.co = co
        self.name = co.co_qualname
        self.file = file
        self.module = module
        Code.count += 1
        self.uid = Code.count
        raw = list(dis.get_instructions(co, show_caches=False))
        index = {}
        n = 0
        pending = []
        for i in raw:
            index[i.offset] = n
            if i.opname in ("CACHE", "EXTENDED_ARG"):
                pending.append(i.offset)
                continue
            n += 1
        self.ins = []
        self.lines = []
        line = co.co_firstlineno
        for i in raw:
            if i.starts_line is not None:
                line = i.starts_line
            if i.positions and i.positions.lineno:
                line = i.positions.lineno
            if i.opname in ("CACHE", "EXTENDED_ARG"):
                continue
            arg, av = i.arg, i.argval
            if i.opcode in dis.hasjrel or i.opcode in dis.hasjabs:
                av = index[i.argval]
            if i.opname == "LOAD_CONST" or i.opname == "RETURN_CONST" or i.opname == "KW_NAMES":
                av = co.co_consts[arg]
                av = wrap_const(av, file, module)
            h = HANDLERS.get(i.opname)
            if h is None:
                h = unsupported(i.opname)
            self.ins.append((h, arg, av, i.opname))
            self.lines.append(line)
        offs = sorted(index)
        import bisect

        def idx(off):
            k = bisect.bisect_left(offs, off)
            return index[offs[k]] if k < len(offs) else n

        self.table = [(idx(e.start), idx(e.end), idx(e.target), e.depth, e.lasti) for e in dis._parse_exception_table(co)]

    def handler(self, pc):
        for s, e, t, d, l in self.table:
            if s <= pc < e:
                return t, d, l
        return None


CODES = {}


def get_code(co, file, module):
    c = CODES.get(id(co))
    if c is None:
        c = Code(co, file, module)
        CODES[id(co)] = c
        c.consts = co  # keep alive
    return c


def wrap_const(v, file, module):
    if type(v).__name__ == "code":
        return get_code(v, file, module)
    return v


def unsupported(name):
    def h(vm, f, arg, av):
        raise AnalysisError(f"unsupported instruction {name} in {f.code.file}:{f.line()}")

    return h


class Frame:
    __slots__ = ("code", "pc", "stack", "fast", "mod", "kwn", "gen", "mode", "ns", "data")

    def __init__(self, code, mod, fast=None):
        self.code = code
        self.pc = 0
        self.stack = []
        self.fast = fast if fast is not None else {}
        self.mod = mod
        self.kwn = ()
        self.gen = None
        self.mode = None  # None | 'init' | 'send' | 'iter' | 'top' | 'class'
        self.ns = None
        self.data = None

    def line(self):
        pc = max(0, min(self.pc - 1, len(self.code.lines) - 1))
        return self.code.lines[pc]


class Strand:
    __slots__ = ("name", "frames", "exc", "status", "wait", "result", "error", "cancel", "task", "timer", "info")

    def __init__(self, name):
        self.name = name
        self.frames = []
        self.exc = None
        self.status = "ready"
        self.wait = None
        self.result = None
        self.error = None
        self.cancel = False
        self.task = None
        self.timer = None
        self.info = None


class State:
    def __init__(self):
        self.strands = []
        self.ready = []
        self.thawed = {}
        self.overlay = {}
        self.facts = {}
        self.mon = {}
        self.nunk = 0
        self.serial = 0


HANDLERS = {}


def op(*names):
    def deco(fn):
        for n in names:
            HANDLERS[n] = fn
        return fn

    return deco


class VM:
    def __init__(self):
        self.modules = {}
        self.st = State()
        self.world = None
        self.cur = None  # running strand
        self.nest = 0
        self.choices = []
        self.taken = []
        self.events = []
        self.loading = True
        self.steps = 0
        self.budget = 400000
        self.decided = 0
        self.big_iter = None
        self.preempt = False
        self.budget_touch = 0
        self.shared = None
        self.visited_funcs = set()
        self.visited_calls = set()
        self.T = {}  # builtin classes by name
        self.hooks = {}  # qualname -> host function (vm, func, args, kwargs) -> value or MISSING
        self.frozen_objs = []
        self.const_sets = {}
        self.coverage = set()
        self.sites = set()

    # ------------------------------------------------------------------ choices and facts
    def choose(self, n, label=""):
        if n <= 1:
            return 0
        i = len(self.taken)
        c = self.choices[i] if i < len(self.choices) else 0
        self.taken.append((c, n, label))
        self.decided = self.steps
        return c

    def exhausted(self, f):
        if self.steps - self.decided > self.budget * 3 // 4:
            raise Endless(f"{f.code.file}:{f.line()} {f.code.name}")
        raise AnalysisError(f"step budget exceeded in {f.code.file}:{f.line()} {f.code.name}")

    def unk(self, type_="obj"):
        self.st.nunk += 1
        return Sym("unk", self.st.nunk, type_)

    def fact(self, key, label, n=2):
        """memoised choice"""
        f = self.st.facts
        if key in f:
            return f[key]
        v = self.choose(n, label)
        f[key] = v
        return v

    # ------------------------------------------------------------------ exceptions
    def exc_class(self, name):
        return self.T[name]

    def make_exc(self, cls, *args):
        if isinstance(cls, str):
            cls = self.T[cls]
        o = self.new(cls)
        o.f["args"] = tuple(args)
        return o

    def throw(self, cls, *args):
        raise GuestError(self.note(self.make_exc(cls, *args)))

    def note(self, exc):
        if exc.tb is None:
            tb = []
            if self.cur is not None:
                for fr in self.cur.frames:
                    tb.append((fr.code.file, fr.line(), fr.code.name))
            exc.tb = tb
        return exc

    # ------------------------------------------------------------------ objects
    def new(self, cls, f=None, x=None):
        o = Obj(cls, f, x)
        if self.loading:
            self.frozen_objs.append(o)
        self.st.serial += 1
        o.serial = self.st.serial
        return o

    def list(self, items=()):
        return self.new(self.T["list"], None, list(items))

    def dict(self, items=None):
        return self.new(self.T["dict"], None, dict(items or {}))

    def set(self, items=()):
        o = self.new(self.T["set"], None, {})
        for i in items:
            self.dict_set(o, i, True)
        return o

    def const_set(self, v):
        o = self.const_sets.get(v)
        if o is None:
            o = self.const_sets[v] = Obj(self.T["frozenset"], None, {e: True for e in sorted(v, key=repr)})
            o.frozen = True
        return o

    def freeze(self):
        """everything created so far is static from now on"""
        for o in self.frozen_objs:
            o.frozen = True
        self.frozen_objs = []
        self.loading = False

    def thaw(self, v):
        if type(v) is Obj and v.frozen:
            t = self.st.thawed
            n = t.get(v)
            if n is None:
                n = Obj(v.cls, None, None)
                self.st.serial += 1
                n.serial = self.st.serial
                t[v] = n
                n.f = {k: self.thaw(w) for k, w in v.f.items()}
                if isinstance(v.x, dict):
                    n.x = {self.thaw(k): self.thaw(w) for k, w in v.x.items()}
                elif isinstance(v.x, list):
                    n.x = [self.thaw(w) for w in v.x]
                else:
                    n.x = v.x
            return n
        if type(v) is tuple and v:
            for w in v:
                if (type(w) is Obj and w.frozen) or type(w) is tuple:
                    return tuple(self.thaw(w) for w in v)
            return v
        if type(v) is Bound and type(v.self) is Obj and v.self.frozen:
            return Bound(v.func, self.thaw(v.self))
        return v

    def class_of(self, v):
        t = type(v)
        if t is Obj:
            return v.cls
        if t is EnumMember:
            return v.cls
        if t is Sym:
            st = sym_type(v)
            return self.T[{"num": "int", "callable": "function", "obj": "object"}.get(st, st)]
        n = HOST_TYPES.get(t)
        if n:
            return self.T[n]
        return self.T["object"]

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, name, default=MISSING):
        t = type(o)
        if t is Obj:
            cls = o.cls
            c = cls.lookup(name)
            if type(c) is Wrapper and c.kind == "property":
                return self.call(c.func, (o,))
            v = o.f.get(name, MISSING)
            if v is not MISSING:
                return v
            if c is not MISSING:
                ov = self.st.overlay.get((cls, name), MISSING)
                if ov is not MISSING:
                    c = ov
                return self.bind_attr(c, o, cls)
            if name == "__class__":
                return cls
            if name == "__dict__":
                return self.dict(o.f)
            ga = cls.lookup("__getattr__")
            if ga is not MISSING:
                return self.call(self.bind_attr(ga, o, cls), (name,))
            if cls.ns.get("$opaque"):
                return self.unk()
        elif t is VMod:
            v = self.st.overlay.get((o, name), MISSING)
            if v is not MISSING:
                return v
            v = o.ns.get(name, MISSING)
            if v is not MISSING:
                return self.thaw(v)
            if name == "__name__":
                return o.name
            sub = self.modules.get(o.name + "." + name)
            if sub is not None:
                return sub
            if o.external:
                from .lib import external_attr

                v = external_attr(self, o, name)
                o.ns[name] = v
                return v
            sub = self.import_module(o.name + "." + name, optional=True)
            if sub is not None:
                return sub
        elif t is VClass:
            return self.class_attr(o, name, default)
        elif t is SuperProxy:
            mro = self.class_of(o.self).mro if type(o.self) is not VClass else o.self.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                v = c.ns.get(name, MISSING)
                if v is not MISSING:
                    if type(o.self) is VClass:
                        return self.bind_class_attr(v, o.self)
                    return self.bind_attr(v, o.self, self.class_of(o.self))
        elif t is EnumMember:
            if name in ("value", "_value_"):
                return self.thaw(o.value)
            if name in ("name", "_name_"):
                return o.name
            if name == "__class__":
                return o.cls
            v = o.cls.lookup(name)
            if v is not MISSING:
                return self.bind_attr(v, o, o.cls)
            if name in o.cls.members:
                return o.cls.members[name]
        elif t is VFunc:
            if name == "__name__":
                return o.attrs.get("__name__", o.name)
            if name == "__qualname__":
                return o.qualname
            if name == "__module__":
                return o.module.name
            if name == "__doc__":
                return None
            if name == "__dict__":
                return self.dict(o.attrs)
            if name == "__annotations__":
                return self.dict({})
            if name == "__code__":
                return self.unk()
            if name == "__defaults__":
                return tuple(o.defaults) or None
            if name in o.attrs:
                return o.attrs[name]
        elif t is Bound:
            if name == "__self__":
                return o.self
            if name == "__func__":
                return o.func
            return self.getattr(o.func, name, default)
        elif t is Partial:
            if name == "func":
                return o.func
            if name == "args":
                return o.args
            if name == "keywords":
                return self.dict(o.kwargs)
        elif t is Wrapper:
            if o.kind == "property" and name in ("setter", "getter", "deleter"):
                def setter(vm, a, k, o=o, name=name):
                    w = Wrapper("property", o.func, o.setter)
                    if name == "setter":
                        w.setter = a[0]
                    elif name == "getter":
                        w.func = a[0]
                    else:
                        w.deleter = a[0]
                    return w

                return Ext("property." + name, setter)
            if name in ("__func__", "__wrapped__", "func", "fget"):
                return o.func
            return self.getattr(o.func, name, default)
        elif t is TypeAlias:
            if name.startswith("__") and name != "__args__":
                pass
            else:
                return TypeAlias(o.name + "." + name)
        elif t is Ext:
            if name in ("__name__", "__qualname__"):
                return o.name.split(".")[-1]
            if name == "__module__":
                return "ext"
        elif t is Sym:
            c = self.class_of(o)
            v = c.lookup(name)
            if v is not MISSING:
                return self.bind_attr(v, o, c)
            w = self.world.sym_attr(self, o, name) if self.world is not None else MISSING
            if w is not MISSING:
                return w
            st = sym_type(o)
            if name == "__class__":
                return c
            if st in ("obj",):
                if default is not MISSING:
                    if self.choose(2, f"hasattr({o!r}, {name})") == 0:
                        return TERM("attr", o, name)
                    return default
                return TERM("attr", o, name)
            if st == "callable" and name in ("__name__", "__qualname__", "__module__"):
                return TERM("str", o, name)
        else:
            if t in (int, bool, float) and name in ("real", "imag", "numerator", "denominator") and hasattr(o, name):
                return getattr(o, name)
            c = self.class_of(o)
            v = c.lookup(name)
            if v is not MISSING:
                return self.bind_attr(v, o, c)
            if name == "__class__":
                return c
        if default is not MISSING:
            return default
        unmodelled(self.class_of(o) if t not in (VMod, VClass) else None, name)
        self.throw("AttributeError", f"{self.type_name(o)!r} object has no attribute {name!r}")

    def type_name(self, o):
        if type(o) is VMod:
            return f"module {o.name}"
        if type(o) is VClass:
            return f"type {o.name}"
        return self.class_of(o).name

    def bind_attr(self, c, o, cls):
        t = type(c)
        if t is VFunc or t is Ext:
            return Bound(c, o)
        if t is Wrapper:
            if c.kind == "staticmethod":
                return c.func
            if c.kind == "classmethod":
                return Bound(c.func, cls)
            if c.kind == "property":
                return self.call(c.func, (o,))
            if c.kind == "cached_property":
                v = self.call(c.func, (o,))
                o.f[c.func.name] = v
                return v
        if t is Obj and c.cls.ns.get("$descriptor", MISSING) is not MISSING:
            c = self.thaw(c)
            g = c.cls.lookup("__get__")
            return self.call(Bound(g, c), (o, cls)) if g is not MISSING else c
        return self.thaw(c)

    def bind_class_attr(self, c, cls):
        t = type(c)
        if t is Wrapper:
            if c.kind == "staticmethod":
                return c.func
            if c.kind == "classmethod":
                return Bound(c.func, cls)
            return c
        if t is Obj and c.cls.ns.get("$descriptor", MISSING) is not MISSING:
            c = self.thaw(c)
            g = c.cls.lookup("__get__")
            return self.call(Bound(g, c), (None, cls)) if g is not MISSING else c
        return self.thaw(c)

    def class_attr(self, cls, name, default=MISSING):
        if cls.is_enum and name in cls.members:
            return cls.members[name]
        for k in cls.mro:
            ov = self.st.overlay.get((k, name), MISSING) if self.st.overlay else MISSING
            if ov is not MISSING:
                return self.bind_class_attr(ov, cls)
            v = k.ns.get(name, MISSING)
            if v is not MISSING:
                return self.bind_class_attr(v, cls)
        if name == "__name__" or name == "__qualname__":
            return cls.name
        if name == "__module__":
            return cls.module
        if name == "__mro__":
            return tuple(cls.mro)
        if name == "__bases__":
            return cls.bases
        if name == "__dict__":
            return self.dict({k: v for k, v in cls.ns.items() if not k.startswith("$")})
        if name == "__doc__":
            return None
        if name == "__class__":
            return self.T["type"]
        if name == "__members__" and cls.is_enum:
            return self.dict(cls.members)
        if name == "__subclasses__":
            return Ext("__subclasses__", lambda vm, a, k: vm.list([c for c in vm.all_classes if cls in c.bases]))
        if default is not MISSING:
            return default
        self.throw("AttributeError", f"type object {cls.name!r} has no attribute {name!r}")

    def setattr(self, o, name, v, raw=False):
        t = type(o)
        if t is Obj:
            c = o.cls.lookup(name)
            if type(c) is Wrapper and c.kind == "property":
                if c.setter is None:
                    self.throw("AttributeError", f"property {name!r} has no setter")
                self.call(c.setter, (o, v))
                return
            if not raw:
                m = o.cls.lookup("__setattr__")
                if type(m) is VFunc:
                    self.call(m, (o, name, v))
                    return
            if type(c) is Obj and c.cls.ns.get("$descriptor", MISSING) is not MISSING:
                c = self.thaw(c)
                m = c.cls.lookup("__set__")
                if m is not MISSING:
                    self.call(Bound(m, c), (o, v))
                    return
            if not raw and o.cls.ns.get("$frozen_dc"):
                self.throw("AttributeError", f"cannot assign to field {name!r}")
            if o.frozen:
                raise AnalysisError("write to a static object")
            o.f[name] = v
            if self.world is not None:
                self.world.on_setattr(self, o, name, v)
            return
        if t is VClass or t is VMod:
            if self.loading:
                o.ns[name] = v
            else:
                self.st.overlay[(o, name)] = v
            return
        if t is VFunc:
            o.attrs[name] = v
            return
        if t is Sym:
            return
        if t is Ext:
            return
        self.throw("AttributeError", f"cannot set attribute {name!r} of {self.type_name(o)}")

    def delattr(self, o, name):
        if type(o) is Obj:
            d = o.cls.lookup(name)
            if type(d) is Wrapper and d.kind == "property" and d.deleter is not None:
                self.call(d.deleter, (o,))
                return
            m = o.cls.lookup("__delattr__")
            if type(m) is VFunc:
                self.call(m, (o, name))
                return
        if type(o) is Obj and name in o.f:
            del o.f[name]
            return
        if type(o) is VMod and name in o.ns:
            del o.ns[name]
            return
        if type(o) is Sym:
            return
        self.throw("AttributeError", name)

    def find_method(self, o, name):
        """user-defined special method of an Obj / EnumMember, or None"""
        if type(o) is Obj or type(o) is EnumMember:
            m = o.cls.lookup(name)
            if m is MISSING or m is None:
                return None
            return Bound(m, o) if type(m) in (VFunc, Ext) else self.bind_attr(m, o, o.cls)
        return None

    # ------------------------------------------------------------------ truth, comparison
    def truth(self, v):
        t = type(v)
        if t is bool:
            return v
        if t is Sym:
            if v.k == "id":
                return True
            if is_num(v):
                return self.rel(v, "!=", 0)
            return self.fact(("truth", v), f"bool({v!r})") == 0
        if t is Obj:
            if v.cls.payload in ("list", "dict", "set"):
                m = v.cls.lookup("__bool__")
                if type(m) is VFunc:
                    return self.truth(self.call(m, (v,)))
                return bool(v.x)
            m = v.cls.lookup("__bool__")
            if m is not MISSING:
                return self.truth(self.call(m, (v,)))
            m = v.cls.lookup("__len__")
            if m is not MISSING:
                return self.truth(self.call(m, (v,)))
            if v.cls.ns.get("$opaque"):
                return self.fact(("truth", v.serial), f"bool({v.cls.name})") == 0
            return True
        if v is NotImpl:
            return True
        if t in (VFunc, VClass, Ext, Bound, Partial, EnumMember, VMod, TypeAlias, SuperProxy, Wrapper):
            if t is EnumMember:
                m = v.cls.lookup("__bool__")
                if m is not MISSING:
                    return self.truth(self.call(m, (v,)))
                if type(v.value) is int and self.T.get("IntEnum") in v.cls.mro:
                    return bool(v.value)
            return True
        return bool(v)

    NEG = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}

    def rel(self, a, op_, b):
        """truth of a numeric comparison"""
        d = lin_add(a, b, -1)
        if type(d) in (int, float):
            return {"<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0, "==": d == 0, "!=": d != 0}[op_]
        items, c = lin_of(d)
        key = sorted(items.items(), key=lambda p: repr(p[0]))
        k0 = key[0][1]
        key = tuple((s, cc / k0 if cc % k0 else cc // k0) for s, cc in key)
        bound = -c / k0 if c % k0 else -c // k0
        if k0 < 0:
            op_ = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op_, op_)
        facts = self.st.facts
        fk = ("rng", key)
        iv = facts.get(fk)
        if iv is None:
            lo = None
            if len(key) == 1:
                lo = self.lower_bound(key[0][0])
            iv = (lo, False, self.upper_bound(key[0][0]) if len(key) == 1 else None, False, ())
        t = self.decide(iv, op_, bound)
        if t is None:
            forced = self.world.force_rel(self, key, op_, bound) if self.world is not None else None
            if forced is not None:
                r = forced
            else:
                shown = "+".join(f"{'' if cc == 1 else str(cc) + '*'}{s!r}" for s, cc in key)
                r = self.choose(2, f"{shown} {op_} {bound}") == 0
            iv = self.restrict(iv, op_ if r else self.NEG[op_], bound, self.integral(key))
            if self.world is not None:
                self.world.on_rel(self, key, op_ if r else self.NEG[op_], bound)
            facts[fk] = iv
            return r
        if self.world is not None and self.world.on_known is not None:
            self.world.on_known(self, key, op_ if t else self.NEG[op_], bound)
        return t

    def integral(self, key):
        return all(sym_type(s) == "int" and type(cc) is int for s, cc in key)

    def lower_bound(self, s):
        if s.k == "term" and s.a[0] in ("len", "abs"):
            return 0
        if s.k == "atom" and s.a[0].startswith("+"):
            return 1
        if s.k == "unk" and len(s.a) > 2:
            return s.a[2]
        if s.k == "term" and s.a[0] in ("truediv", "floordiv") and type(s.a[2]) in (int, float) and s.a[2] > 0:
            b = self.lower_bound(s.a[1]) if type(s.a[1]) is Sym else None
            return None if b is None else (b / s.a[2] if s.a[0] == "truediv" else b // s.a[2])
        return None

    def upper_bound(self, s):
        """byte strings and containers are assumed to be shorter than 2**40"""
        if s.k == "term" and s.a[0] == "len":
            return 2 ** 40
        if s.k == "term" and s.a[0] in ("truediv", "floordiv") and type(s.a[2]) in (int, float) and s.a[2] > 0:
            b = self.upper_bound(s.a[1]) if type(s.a[1]) is Sym else None
            return None if b is None else b / s.a[2]
        return None

    @staticmethod
    def decide(iv, op_, b):
        lo, los, hi, his, ne = iv
        if op_ in ("<", ">="):
            r = None
            if hi is not None and (hi < b or (hi == b and his)):
                r = True
            elif lo is not None and lo >= b:
                r = False
            return r if r is None or op_ == "<" else not r
        if op_ in ("<=", ">"):
            r = None
            if hi is not None and hi <= b:
                r = True
            elif lo is not None and (lo > b or (lo == b and los)):
                r = False
            return r if r is None or op_ == "<=" else not r
        r = None
        if (hi is not None and (hi < b or (hi == b and his))) or (lo is not None and (lo > b or (lo == b and los))) or b in ne:
            r = False
        elif lo is not None and hi is not None and lo == hi == b:
            r = True
        return r if r is None or op_ == "==" else not r

    @staticmethod
    def restrict(iv, op_, b, integral=False):
        lo, los, hi, his, ne = iv
        if op_ == "<" or op_ == "<=":
            s = op_ == "<"
            if hi is None or b < hi or (b == hi and s):
                hi, his = b, s
        elif op_ == ">" or op_ == ">=":
            s = op_ == ">"
            if lo is None or b > lo or (b == lo and s):
                lo, los = b, s
        elif op_ == "==":
            lo, los, hi, his = b, False, b, False
        else:
            ne = tuple(sorted(set(ne) | {b}))
        if integral:
            import math

            if hi is not None:
                if his:
                    hi = math.ceil(hi) - 1
                    his = False
                else:
                    hi = math.floor(hi)
                while hi in ne:
                    hi -= 1
            if lo is not None:
                if los:
                    lo = math.floor(lo) + 1
                    los = False
                else:
                    lo = math.ceil(lo)
                while lo in ne:
                    lo += 1
        return (lo, los, hi, his, ne)

    INJECTIVE = {"digest", "pickle", "hex", "decode", "encode", "pack", "attr", "str", "fmt", "item", "dumps", "loads",
                 "slice", "cat"}

    def eq3(self, a, b):
        """True / False / None (unknown)"""
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is Sym or tb is Sym:
            if ta is Sym and tb is Sym:
                if is_num(a) and is_num(b):
                    return "num"
                if a.k == "id" and b.k == "id":
                    return False
                sa, sb = sym_type(a), sym_type(b)
                if sa != sb and "obj" not in (sa, sb):
                    return False
                if a.k == "id" or b.k == "id":
                    o = b if a.k == "id" else a
                    return False if o.k == "term" and o.a[0] != "attr" else None
                if a.k == "term" and b.k == "term":
                    if a.a[0] == b.a[0]:
                        if a.a[0] in self.INJECTIVE:
                            return self.all3(a.a[1:], b.a[1:])
                        return None
                    if a.a[0] in self.INJECTIVE and b.a[0] in self.INJECTIVE:
                        return False
                return None
            s, h = (a, b) if ta is Sym else (b, a)
            if is_num(s):
                if type(h) in (int, float, bool):
                    return "num"
                return False
            if h is None:
                return None if sym_type(s) == "obj" and s.k in ("unk",) else (None if s.k == "atom" and sym_type(s) == "obj" else False)
            st = sym_type(s)
            if s.k == "id":
                return False
            if type(h) is str:
                return None if st in ("str", "obj") else False
            if type(h) is bytes:
                if s.k == "term" and s.a[0] in ("pickle", "digest", "pack") and h == b"":
                    return False
                return None if st in ("bytes", "obj") else False
            return None if st == "obj" and type(h) not in (Obj, VClass, VFunc, EnumMember) else False
        if ta is tuple and tb is tuple:
            return self.all3(a, b)
        if ta is Obj or tb is Obj:
            for x, y in ((a, b), (b, a)):
                if type(x) is Obj:
                    m = x.cls.lookup("__eq__")
                    if m is not MISSING:
                        r = self.call(m, (x, y))
                        if r is not NotImpl:
                            return self.truth(r)
            if ta is Obj and tb is Obj:
                pa, pb = a.cls.payload, b.cls.payload
                if pa == pb and pa in ("list",):
                    return self.all3(tuple(a.x), tuple(b.x))
                if pa == pb and pa == "dict":
                    if len(a.x) != len(b.x):
                        return False
                    res = True
                    for k, v in a.x.items():
                        if k not in b.x:
                            return False
                        r = self.eq(v, b.x[k])
                        if not r:
                            return False
                    return res
                if pa == pb and pa == "set":
                    return set(a.x) == set(b.x)
                if a.cls is b.cls and a.cls.dc_fields is not None and a.cls.ns.get("$dc_eq", True):
                    for n in a.cls.dc_fields:
                        if n[5] and not self.eq(a.f.get(n[0]), b.f.get(n[0])):
                            return False
                    return True
            return False
        if ta is EnumMember or tb is EnumMember:
            if ta is EnumMember and tb is EnumMember:
                return False
            m, o = (a, b) if ta is EnumMember else (b, a)
            if any(c.name in ("str", "int", "bytes", "IntEnum", "StrEnum") for c in m.cls.mro):
                return self.eq3(m.value, o)
            return False
        try:
            return bool(a == b)
        except Exception:
            return False

    def all3(self, a, b):
        if len(a) != len(b):
            return False
        res = True
        for x, y in zip(a, b):
            r = self.eq3(x, y)
            if r == "num":
                r = self.rel(x, "==", y)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    def eq(self, a, b):
        r = self.eq3(a, b)
        if r == "num":
            return self.rel(a, "==", b)
        if r is None:
            ka, kb = sorted((a, b), key=repr)
            return self.fact(("eq", ka, kb), f"{ka!r} == {kb!r}") == 0
        return r

    def compare(self, a, op_, b):
        if op_ == "==":
            m = self.find_method(a, "__eq__") if type(a) is Obj else None
            if m is not None:
                r = self.call(m, (b,))
                if r is not NotImpl:
                    return r
            return self.eq(a, b)
        if op_ == "!=":
            m = self.find_method(a, "__ne__") if type(a) is Obj else None
            if m is not None:
                r = self.call(m, (b,))
                if r is not NotImpl:
                    return r
            r = self.compare(a, "==", b)
            return not self.truth(r)
        if type(a) is EnumMember and mixed(a) and self.find_method(a, "__lt__") is None:
            a = a.value
        if type(b) is EnumMember and mixed(b):
            b = b.value
        if is_num(a) and is_num(b):
            return self.rel(a, op_, b)
        ta, tb = type(a), type(b)
        if ta is Sym and tb is Sym and a.k == "id" and b.k == "id":
            x, y = a.a, b.a
            return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op_]
        if ta is tuple and tb is tuple:
            return self.seq_cmp(a, op_, b)
        if ta is Obj:
            name = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op_]
            m = self.find_method(a, name)
            if m is not None:
                r = self.call(m, (b,))
                if r is not NotImpl:
                    return r
            if tb is Obj:
                name = {"<": "__gt__", "<=": "__ge__", ">": "__lt__", ">=": "__le__"}[op_]
                m = self.find_method(b, name)
                if m is not None:
                    r = self.call(m, (a,))
                    if r is not NotImpl:
                        return r
                if a.cls.payload == "list" and b.cls.payload == "list":
                    return self.seq_cmp(tuple(a.x), op_, tuple(b.x))
                if a.cls.payload == "set" and b.cls.payload == "set":
                    x, y = set(a.x), set(b.x)
                    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op_]
        if ta is Sym or tb is Sym:
            s = a if ta is Sym else b
            o = b if ta is Sym else a
            if o is None or type(o) is Obj:
                self.throw("TypeError", f"'{op_}' not supported")
            if s.k in ("unk", "term", "atom", "id", "strc") and type(o) in (Sym, int, float, str, bytes):
                if op_ in ("<=", ">"):
                    r = self.fact(("cmp", b, a), f"{b!r} < {a!r}") == 0
                    return r if op_ == ">" else not r
                r = self.fact(("cmp", a, b), f"{a!r} < {b!r}") == 0
                return r if op_ == "<" else not r
        try:
            return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b}[op_]()
        except TypeError:
            self.throw("TypeError", f"'{op_}' not supported between instances of '{self.type_name(a)}' and '{self.type_name(b)}'")

    def seq_cmp(self, a, op_, b):
        for x, y in zip(a, b):
            if self.eq(x, y):
                continue
            return self.compare(x, op_, y)
        return {"<": len(a) < len(b), "<=": len(a) <= len(b), ">": len(a) > len(b), ">=": len(a) >= len(b)}[op_]

    # ------------------------------------------------------------------ dictionaries
    def hashable(self, k):
        t = type(k)
        if t is Obj:
            if k.cls.payload in ("list", "dict", "set") and not k.cls.ns.get("$hashable"):
                self.throw("TypeError", f"unhashable type: '{k.cls.name}'")
            if k.cls.dc_fields is not None and k.cls.ns.get("$dc_eq", True) and not k.cls.ns.get("$frozen_dc") \
                    and k.cls.lookup("__hash__") is MISSING:
                self.throw("TypeError", f"unhashable type: '{k.cls.name}'")
        elif t is tuple:
            for w in k:
                self.hashable(w)

    def find_key(self, d, k):
        """the key of host dict d equal to k, or MISSING; forks when unknown"""
        if type(k) in (str, bytes, int, type(None), bool, float) or type(k) in (VClass, EnumMember, VFunc, Bound):
            if k in d:
                return k
            if self.mixed_enums and (type(k) is EnumMember and mixed(k) or type(k) in (str, bytes, int, bool) and any(type(e) is EnumMember for e in d)):
                return self._find_slow(d, k)
            if any(type(e) is Sym and e.k not in ("id",) or type(e) is Obj for e in d):
                return self._find_slow(d, k)
            return MISSING
        self.hashable(k)
        try:
            if k in d:
                return k
        except TypeError:
            raise AnalysisError(f"unhashable key {k!r}")
        if type(k) is Sym and k.k == "id":
            if all(type(e) is Sym and e.k == "id" or type(e) in (str, bytes) for e in (d if len(d) < 200 else (next(iter(d)), next(reversed(d))))):
                return MISSING
        return self._find_slow(d, k)

    def _find_slow(self, d, k):
        for e in list(d):
            if self.eq(e, k):
                return e
        return MISSING

    def dict_set(self, o, k, v):
        e = self.find_key(o.x, k)
        o.x[k if e is MISSING else e] = v

    def dict_get(self, o, k):
        e = self.find_key(o.x, k)
        if e is MISSING:
            return MISSING
        return o.x[e]

    # ------------------------------------------------------------------ iteration
    def get_iter(self, v):
        t = type(v)
        if t is Obj:
            c = v.cls
            if c.name in ("generator", "iterator") and c.builtin:
                return v
            m = c.lookup("__iter__")
            if type(m) is VFunc:
                return self.call(m, (v,))
            p = c.payload
            if c is self.T["dict_view"]:
                return self.call(m, (v,))
            if p == "list":
                return self.new(self.T["iterator"], None, ["list", v, 0])
            if p == "dict":
                return self.new(self.T["iterator"], None, ["keys", v, 0, len(v.x)])
            if p == "set":
                return self.new(self.T["iterator"], None, ["tuple", self.set_order(v), 0, v])
            if m is not MISSING:
                return self.call(m, (v,))
            if c.lookup("__getitem__") is not MISSING:
                return self.new(self.T["iterator"], None, ["getitem", v, 0])
            if c.ns.get("$opaque"):
                return self.new(self.T["iterator"], None, ["unk", None, 0])
        elif t is tuple:
            return self.new(self.T["iterator"], None, ["tuple", v, 0])
        elif t is str:
            return self.new(self.T["iterator"], None, ["tuple", tuple(v), 0])
        elif t is bytes:
            return self.new(self.T["iterator"], None, ["tuple", tuple(v), 0])
        elif t is range:
            return self.new(self.T["iterator"], None, ["tuple", tuple(v), 0])
        elif t is VClass and v.is_enum:
            return self.new(self.T["iterator"], None, ["tuple", tuple(dict.fromkeys(v.members.values())), 0])
        elif t is Sym:
            w = self.world.sym_iter(self, v) if self.world is not None else MISSING
            if w is not MISSING:
                return self.new(self.T["iterator"], None, ["tuple", tuple(w), 0])
            if sym_type(v) in ("obj", "str", "bytes"):
                return self.new(self.T["iterator"], None, ["sym", v, 0])
        elif t is TypeAlias:
            return self.new(self.T["iterator"], None, ["tuple", (), 0])
        self.throw("TypeError", f"'{self.type_name(v)}' object is not iterable")

    def set_order(self, v):
        keys = tuple(v.x)
        n = len(keys)
        if 2 <= n <= 3 and self.world is not None and self.world.set_orders and all(type(k) is Sym for k in keys):
            import itertools

            perms = list(itertools.permutations(keys))
            return perms[self.choose(len(perms), "set order")]
        return keys

    def iter_next(self, it):
        """next element or MISSING; generators are run nested"""
        x = it.x
        if it.cls is self.T["generator"]:
            return self.gen_resume(it, None)
        if it.cls.name != "iterator" or not it.cls.builtin:
            m = it.cls.lookup("__next__")
            if m is MISSING:
                self.throw("TypeError", f"'{it.cls.name}' object is not an iterator")
            try:
                return self.call(m, (it,))
            except GuestError as e:
                if e.obj.cls.issub(self.T["StopIteration"]):
                    return MISSING
                raise
        k = x[0]
        if k == "list":
            i = x[2]
            if i < len(x[1].x):
                x[2] = i + 1
                return x[1].x[i]
            return MISSING
        if k == "tuple":
            i = x[2]
            if len(x) > 3 and len(x[3].x) != len(x[1]):
                self.throw("RuntimeError", "Set changed size during iteration")
            if i < len(x[1]):
                x[2] = i + 1
                return x[1][i]
            return MISSING
        if k in ("keys", "values", "items"):
            d = x[1].x
            if len(d) != x[3]:
                self.throw("RuntimeError", "dictionary changed size during iteration")
            i = x[2]
            if i < len(d):
                x[2] = i + 1
                if len(d) > 1000:
                    c = self.big_iter
                    if c is None or c[0] is not x or c[1] != i:
                        c = self.big_iter = [x, i, iter_from(d, i)]
                    c[1] += 1
                    key = next(c[2])
                else:
                    key = next(iter_from(d, i))
                return key if k == "keys" else d[key] if k == "values" else (key, d[key])
            return MISSING
        if k == "sym":
            if x[2] < 2 and self.fact(("more", x[1], x[2]), f"{x[1]!r} has more than {x[2]} elements") == 0:
                x[2] += 1
                return TERM("item", x[1], x[2] - 1)
            return MISSING
        if k == "unk":
            if x[2] < 2 and self.choose(2, "unknown iterable has another element") == 0:
                x[2] += 1
                return self.unk()
            return MISSING
        if k == "getitem":
            i = x[2]
            x[2] = i + 1
            try:
                return self.call(self.find_method(x[1], "__getitem__"), (i,))
            except GuestError as e:
                if e.obj.cls.issub(self.T["IndexError"]):
                    return MISSING
                raise
        if k == "enum":
            v = self.iter_next(x[1])
            if v is MISSING:
                return MISSING
            x[2] += 1
            return (x[2] - 1, v)
        if k == "zip":
            out = []
            for n, s in enumerate(x[1]):
                v = self.iter_next(s)
                if v is MISSING:
                    if x[2] and (n > 0 or any(self.iter_next(z) is not MISSING for z in x[1][1:])):
                        self.throw("ValueError", "zip() arguments have different lengths")
                    return MISSING
                out.append(v)
            return tuple(out) if out else MISSING
        if k == "map":
            out = []
            for s in x[1]:
                v = self.iter_next(s)
                if v is MISSING:
                    return MISSING
                out.append(v)
            return self.call(x[2], tuple(out))
        if k == "filter":
            while True:
                v = self.iter_next(x[1])
                if v is MISSING:
                    return MISSING
                if self.truth(v if x[2] is None else self.call(x[2], (v,))) == x[3]:
                    return v
        if k == "chain":
            while x[1]:
                if x[2] is None:
                    x[2] = self.get_iter(x[1][0])
                v = self.iter_next(x[2])
                if v is not MISSING:
                    return v
                x[1] = x[1][1:]
                x[2] = None
            return MISSING
        if k == "callable":
            v = self.call(x[1], ())
            if self.eq(v, x[2]):
                return MISSING
            return v
        if k == "islice":
            if x[2] <= 0:
                return MISSING
            x[2] -= 1
            return self.iter_next(x[1])
        if k == "count":
            x[1] += x[2]
            return x[1] - x[2]
        raise AnalysisError(f"iterator {k}")

    def iterate(self, v, limit=1000000):
        it = self.get_iter(v)
        n = 0
        while True:
            e = self.iter_next(it)
            if e is MISSING:
                return
            n += 1
            if n > limit:
                raise AnalysisError("an iterator that does not end")
            yield e

    def gen_resume(self, gen, value, exc=None):
        """run a generator object to its next yield (nested); MISSING when it is exhausted"""
        fr = gen.x
        if fr is None:
            if exc is not None:
                raise GuestError(exc)
            return MISSING
        if gen.f.get("running"):
            self.throw("ValueError", "generator already executing")
        started = gen.f.get("started")
        res = []
        fr.mode = "nested"
        fr.gen = gen
        fr.data = res
        if started:
            fr.stack.append(value)
        else:
            fr.stack.append(None)
        gen.f["started"] = True
        gen.f["running"] = True
        try:
            self.run_nested(fr, exc)
        finally:
            gen.f["running"] = False
        if res and res[0] == "yield":
            return res[1]
        gen.f["result"] = res[1] if res else None
        return MISSING

    # ------------------------------------------------------------------ calls
    def call(self, func, args=(), kwargs=None):
        """synchronous (nested) call"""
        kwargs = kwargs or {}
        while True:
            t = type(func)
            if t is Bound:
                args = (func.self,) + tuple(args)
                func = func.func
                continue
            if t is Partial:
                args = func.args + tuple(args)
                kwargs = {**func.kwargs, **kwargs}
                func = func.func
                continue
            break
        if t is Ext:
            return func.fn(self, tuple(args), kwargs)
        base = len(self.cur.frames) if self.cur is not None else 0
        r = self.invoke(func, tuple(args), kwargs)
        if type(r) is Frame:
            res = []
            if r.mode == "init":
                r.data = (r.data, res)
                r.mode = "nested_init"
            else:
                r.mode = "nested"
                r.data = res
            self.run_nested(r)
            return res[1]
        return r

    def run_nested(self, fr, exc=None):
        cur = self.cur
        temp = False
        if cur is None:
            cur = self.cur = Strand("load")
            temp = True
        base = len(cur.frames)
        cur.frames.append(fr)
        saved_exc = cur.exc
        self.nest += 1
        try:
            if exc is not None:
                if not self.unwind(exc, base):
                    raise GuestError(exc)
            self.loop(base)
        finally:
            self.nest -= 1
            cur.exc = saved_exc
            if temp:
                self.cur = None

    def invoke(self, func, args, kwargs):
        """returns a value, or a Frame that has to be run (not yet pushed)"""
        while True:
            t = type(func)
            if t is VFunc:
                if self.hooks:
                    h = self.hooks.get(func.qualname)
                    if h is not None:
                        r = h(self, func, args, kwargs)
                        if r is not MISSING:
                            return r
                return self.make_frame(func, args, kwargs)
            if t is Bound:
                args = (func.self,) + args
                func = func.func
                continue
            if t is Ext:
                return func.fn(self, args, kwargs)
            if t is VClass:
                return self.instantiate(func, args, kwargs)
            if t is Partial:
                args = func.args + args
                kwargs = {**func.kwargs, **kwargs}
                func = func.func
                continue
            if t is Wrapper:
                func = func.func
                continue
            if t is Obj:
                m = func.cls.lookup("__call__")
                if m is MISSING:
                    if func.cls.ns.get("$opaque"):
                        return self.unk()
                    self.throw("TypeError", f"'{func.cls.name}' object is not callable")
                func = Bound(m, func)
                continue
            if t is Sym:
                if self.world is not None:
                    r = self.world.call_sym(self, func, args, kwargs)
                    if r is not MISSING:
                        return r
                if sym_type(func) in ("obj", "callable"):
                    return self.unk()
                self.throw("TypeError", f"{func!r} is not callable")
            if t is TypeAlias:
                return func if func.name.endswith("TypeVar") or True else None
            if t is EnumMember:
                m = func.cls.lookup("__call__")
                if m is not MISSING:
                    func = Bound(m, func)
                    continue
            self.throw("TypeError", f"'{self.type_name(func)}' object is not callable")

    def make_frame(self, func, args, kwargs):
        self.coverage.add(func.code)
        code = func.code
        co = code.co
        self.visited_funcs.add(code)
        fr = Frame(code, func.module)
        fast = fr.fast
        names = co.co_varnames
        n = co.co_argcount
        npos = co.co_posonlyargcount
        nk = co.co_kwonlyargcount
        na = len(args)
        if na > n:
            if co.co_flags & CO_VARARGS:
                fast[names[n + nk]] = tuple(args[n:])
            else:
                self.throw("TypeError", f"{func.name}() takes {n} positional arguments but {na} were given")
            for i in range(n):
                fast[names[i]] = args[i]
        else:
            for i in range(na):
                fast[names[i]] = args[i]
            if co.co_flags & CO_VARARGS:
                fast[names[n + nk]] = ()
        extra = None
        if kwargs:
            for k, v in kwargs.items():
                ok = False
                for i in range(npos, n + nk):
                    if names[i] == k:
                        if k in fast:
                            self.throw("TypeError", f"{func.name}() got multiple values for argument '{k}'")
                        fast[k] = v
                        ok = True
                        break
                if not ok:
                    if co.co_flags & CO_VARKEYWORDS:
                        extra = extra or {}
                        extra[k] = v
                    else:
                        self.throw("TypeError", f"{func.name}() got an unexpected keyword argument '{k}'")
        nd = len(func.defaults)
        for i in range(n):
            nm = names[i]
            if nm not in fast:
                j = i - (n - nd)
                if j >= 0:
                    fast[nm] = self.thaw(func.defaults[j])
                else:
                    self.throw("TypeError", f"{func.name}() missing required argument: '{nm}'")
        for i in range(n, n + nk):
            nm = names[i]
            if nm not in fast:
                if nm in func.kwdefaults:
                    fast[nm] = self.thaw(func.kwdefaults[nm])
                else:
                    self.throw("TypeError", f"{func.name}() missing required keyword-only argument: '{nm}'")
        if co.co_flags & CO_VARKEYWORDS:
            nm = names[n + nk + (1 if co.co_flags & CO_VARARGS else 0)]
            fast[nm] = self.new(self.T["dict"], None, dict(extra or {}))
        if func.closure:
            for nm, c in zip(co.co_freevars, func.closure):
                fast[nm] = c
        return fr

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum:
            return self.enum_lookup(cls, args[0])
        nw = cls.lookup("__new__")
        if nw is not MISSING and type(nw) is Ext:
            o = nw.fn(self, (cls,) + args, kwargs)
            if type(o) is not Obj or o.cls is not cls:
                return o
        elif nw is not MISSING:
            f = nw.func if type(nw) is Wrapper else nw
            o = self.call(f, (cls,) + args, kwargs)
            if type(o) is not Obj or not o.cls.issub(cls):
                return o
        else:
            ab = self.abstract_methods(cls)
            if ab:
                self.throw("TypeError", f"Can't instantiate abstract class {cls.name} without an implementation for "
                                        f"abstract method {ab[0]!r}")
            o = self.new_instance(cls)
        init = cls.lookup("__init__")
        if init is MISSING:
            if (args or kwargs) and nw is MISSING:
                self.throw("TypeError", f"{cls.name}() takes no arguments")
            return o
        if type(init) is Ext:
            init.fn(self, (o,) + args, kwargs)
            return o
        r = self.invoke(init, (o,) + args, kwargs)
        if type(r) is Frame:
            r.mode = "init"
            r.data = o
        else:
            return o
        return r

    def new_instance(self, cls):
        p = cls.payload
        x = [] if p == "list" else {} if p in ("dict", "set") else None
        return self.new(cls, None, x)

    def abstract_methods(self, cls):
        if cls.abstract is None:
            out = []
            seen = set()
            for c in cls.mro:
                for n, v in c.ns.items():
                    if n in seen:
                        continue
                    seen.add(n)
                    w = v
                    while type(w) is Wrapper:
                        w = w.func
                    if type(w) is VFunc and w.attrs.get("__isabstractmethod__"):
                        out.append(n)
            cls.abstract = out
        return cls.abstract

    def enum_lookup(self, cls, v):
        if type(v) is EnumMember and v.cls is cls:
            return v
        members = list(dict.fromkeys(cls.members.values()))
        for m in members:
            r = self.eq3(m.value, v)
            if r is True or (r == "num" and self.rel(m.value, "==", v)):
                return m
            if r is None and self.eq(m.value, v):
                return m
        m = cls.lookup("_missing_")
        if m is not MISSING:
            r = self.call(self.bind_class_attr(m, cls), (v,))
            if r is not None:
                return r
        self.throw("ValueError", f"{describe(v)} is not a valid {cls.name}")

    def isinstance(self, v, cls):
        if type(cls) is tuple:
            for c in cls:
                if self.isinstance(v, c):
                    return True
            return False
        if type(cls) is TypeAlias:
            n = cls.name.split(".")[-1]
            if n in ("Any",):
                return True
            if n == "Callable":
                return self.is_callable(v)
            m = {"List": "list", "Dict": "dict", "Tuple": "tuple", "Set": "set", "Sequence": "list"}.get(n)
            if n in ("Iterable", "Iterator", "Sequence", "Hashable", "Mapping", "Sized", "Collection", "Generator", "Coroutine",
                     "Awaitable"):
                c = self.class_of(v)
                if n == "Mapping":
                    return c.payload == "dict"
                if n == "Sequence":
                    return c.payload == "list" or type(v) in (tuple, str, bytes)
                if n in ("Iterable", "Collection", "Sized"):
                    return c.payload in ("list", "dict", "set") or type(v) in (tuple, str, bytes) or (
                        n == "Iterable" and c.name in ("generator", "iterator")) or c.lookup("__iter__") is not MISSING
                if n in ("Iterator", "Generator"):
                    return c.name in ("generator", "iterator")
                if n == "Hashable":
                    return c.payload is None
                return c.name == "coroutine"
            if m:
                cls = self.T[m]
            elif cls.name.startswith("types.Union"):
                return self.fact(("isinstance", v, cls), "isinstance") == 0
            else:
                return False
        if type(cls) is not VClass:
            if type(cls) is Obj and cls.cls.name == "union":
                return self.isinstance(v, tuple(cls.x))
            if type(cls) is Sym:
                return self.fact(("isinstance", v, cls), f"isinstance({v!r}, {cls!r})") == 0
            self.throw("TypeError", "isinstance() arg 2 must be a type")
        if type(v) is Sym:
            w = self.world.sym_isinstance(self, v, cls) if self.world is not None else MISSING
            if w is not MISSING:
                return w
            st = sym_type(v)
            if st == "obj" and v.k in ("atom", "unk", "term"):
                if cls.name == "object":
                    return True
                return self.fact(("isinstance", v, cls.uid), f"isinstance({v!r}, {cls.name})") == 0
            if st == "num":
                return cls.name in ("int", "float", "object", "Number")
        if type(v) is EnumMember:
            return v.cls.issub(cls) or cls.name == "object"
        return self.class_of(v).issub(cls)

    def is_callable(self, v):
        t = type(v)
        if t in (VFunc, VClass, Ext, Bound, Partial):
            return True
        if t is Obj:
            return v.cls.lookup("__call__") is not MISSING
        if t is Sym:
            st = sym_type(v)
            if st == "callable":
                return True
            if st == "obj":
                return self.fact(("callable", v), f"callable({v!r})") == 0
            return False
        if t is TypeAlias:
            return True
        return False

    # ------------------------------------------------------------------ running
    def touch(self, o):
        """called before an access to a container that another thread may use"""
        if not self.preempt or self.nest:
            return
        if type(o) is not Obj:
            return
        if o.cls.name == "dict_view":
            o = o.x[1]
        sh = self.shared
        if sh is not None and o not in sh and o.serial <= self.serial0:
            return
        if self.budget_touch > 0:
            self.budget_touch -= 1
            return
        raise Suspend()

    def run_strand(self, s, budget_touch=1):
        """run until the strand suspends or ends"""
        self.cur = s
        self.nest = 0
        self.budget_touch = budget_touch
        self.serial0 = self.st.serial
        s.status = "running"
        try:
            self.loop(0)
            s.status = "done"
        except Suspend:
            if s.status == "running":
                s.status = "ready"
        except GuestError as e:
            s.status = "dead"
            s.error = e.obj
            s.frames = []
        finally:
            self.cur = None
        if s.status in ("done", "dead"):
            self.on_strand_end(s)

    def on_strand_end(self, s):
        if s.task is not None:
            t = s.task
            t.f["_done"] = True
            if s.status == "dead":
                if s.error.cls.issub(self.T["CancelledError"]):
                    t.f["_cancelled"] = True
                else:
                    t.f["_exception"] = s.error
            else:
                t.f["_result"] = s.result
            self.notify(t)
            for o in list(t.f["_outer"].x) if "_outer" in t.f else ():
                self.notify(o)
            if "_callbacks" in t.f and t.f["_callbacks"].x:
                from .libmods import start_strand

                cbs = list(t.f["_callbacks"].x)
                t.f["_callbacks"].x.clear()
                for cb in cbs:
                    start_strand(self, self.spawn("callback"), cb, (t,))
        if self.world is not None:
            self.world.on_strand_end(self, s)

    def notify(self, obj, n=None):
        """wake strands waiting for obj (FIFO)"""
        for s in self.st.strands:
            if s.status == "wait" and s.wait is obj:
                self.wake(s)
                if n is not None:
                    n -= 1
                    if n == 0:
                        return

    def wake(self, s):
        s.status = "ready"
        s.wait = None
        s.timer = None
        i = self.st.strands.index(s)
        if i not in self.st.ready:
            self.st.ready.append(i)

    def spawn(self, name, task=None):
        s = Strand(name)
        s.task = task
        self.st.strands.append(s)
        self.st.ready.append(len(self.st.strands) - 1)
        return s

    def push(self, v):
        self.cur.frames[-1].stack.append(v)

    def loop(self, base):
        cur = self.cur
        frames = cur.frames
        while len(frames) > base:
            f = frames[-1]
            try:
                ins = f.code.ins
                while True:
                    h, arg, av, name = ins[f.pc]
                    f.pc += 1
                    if h(self, f, arg, av):
                        break
                self.steps += len(ins) // 4
                if self.steps > self.budget:
                    self.exhausted(f)
            except GuestError as e:
                if not self.unwind(e.obj, base):
                    raise
            except Suspend:
                if self.nest:
                    raise AnalysisError(f"suspension inside a nested call at {f.code.file}:{f.line()}")
                f.pc -= 1
                raise
            except RecursionError:
                self.handle_recursion(base)

    def handle_recursion(self, base):
        raise AnalysisError("recursion too deep")

    def unwind(self, exc, base):
        frames = self.cur.frames
        while len(frames) > base:
            f = frames[-1]
            h = f.code.handler(f.pc - 1)
            if h is not None:
                t, depth, lasti = h
                del f.stack[depth:]
                if lasti:
                    f.stack.append(f.pc - 1)
                f.stack.append(exc)
                f.pc = t
                f.kwn = ()
                return True
            frames.pop()
            if f.gen is not None:
                f.gen.x = None
                f.gen.f["running"] = False
                if exc.cls.issub(self.T["StopIteration"]) and f.code.co.co_flags & (CO_GENERATOR | CO_COROUTINE):
                    exc = self.note(self.make_exc("RuntimeError", "generator raised StopIteration"))
        return False

    def ret_to(self, frames, v):
        if frames:
            frames[-1].stack.append(v)
        else:
            self.cur.result = v

    def do_return(self, f, v):
        """frame f returns v; always leaves the inner loop"""
        frames = self.cur.frames
        frames.pop()
        m = f.mode
        if f.gen is not None:
            f.gen.x = None
            f.gen.f["running"] = False
        if m is None:
            if frames:
                frames[-1].stack.append(v)
            else:
                self.cur.result = v
        elif m == "nested":
            f.data.append("ret") if not f.data else None
            f.data[:] = ["ret", v]
        elif m == "init":
            self.ret_to(frames, f.data)
        elif m == "nested_init":
            o, res = f.data
            res[:] = ["ret", o]
        elif m == "send":
            c = frames[-1]
            c.stack[-1] = v
            c.pc = f.data
        elif m == "iter":
            c = frames[-1]
            c.stack.pop()
            c.pc = f.data
        elif m == "class":
            self.finish_class(f, v)
        elif m == "truth_not":
            frames[-1].stack.append(not self.truth(v))
        else:
            raise AnalysisError(m)
        return True


def mixed(m):
    """an enumeration member that also is a number or text"""
    return any(c.name in ("str", "int", "bytes", "float") and c.builtin for c in m.cls.mro)


def unmodelled(c, name):
    """an attribute that the real type has and the model of it has not is no AttributeError of the program"""
    import builtins
    import collections

    for k in c.mro if c is not None else ():
        if k.builtin:
            h = getattr(builtins, k.name, None) or getattr(collections, k.name, None)
            if isinstance(h, type) and hasattr(h, name):
                raise AnalysisError(f"{k.name}.{name} is not modelled")
        elif in_prelude(k.module) and has_attribute(k.module.lstrip("_"), k.name, name):
            raise AnalysisError(f"{k.module}.{k.name}.{name} is not modelled")


@functools.cache
def in_prelude(module):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib", *str(module).split("."))
    return module is not None and (os.path.exists(p + ".py") or os.path.exists(os.path.join(p, "__init__.py")))


@functools.cache
def has_attribute(module, cls, name):
    """whether instances of a library class may have an attribute: the source of the class mentions it (where it can be read)"""
    import importlib
    import inspect

    if module.split(".")[0] not in sys.stdlib_module_names:
        return True
    try:
        c = getattr(importlib.import_module(module), cls)
        return hasattr(c, name) or any(name in inspect.getsource(k) for k in c.__mro__ if k.__module__ != "builtins")
    except Exception:
        return True


def iter_from(d, i):
    import itertools

    return itertools.islice(d, i, None)


HOST_TYPES = {type(None): "NoneType", bool: "bool", int: "int", float: "float", str: "str", bytes: "bytes", tuple: "tuple",
              range: "range", slice: "slice", VFunc: "function", VClass: "type", Ext: "builtin_function_or_method", Bound: "method", Partial: "partial",
              VMod: "module", EnumMember: "Enum", complex: "complex", type(Ellipsis): "ellipsis", frozenset: "frozenset"}

from . import ops  # noqa: E402,F401  (registers the instruction handlers)
