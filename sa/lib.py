"""Models of the builtins and of the libraries the program uses (host part).

Whatever has to suspend (asyncio, threading, zmq, ...) is modelled in the Python sources under lib/, which are
interpreted like the program itself.  A library attribute without a model is an external function without effect on the
program whose result is unknown.
"""
from __future__ import annotations

import math
import os
import re
import struct

from .values import *  # noqa: F401,F403
from .values import is_num, lin_add, lin_of, lin_scale, sym_type, describe
from .vm import AnalysisError, Cut, Frame, GuestError, MISSING, NULL, Suspend, VM, get_code
from . import ops

HERE = os.path.dirname(os.path.abspath(__file__))
MODELS = {}  # "module.name" -> function(vm, args, kwargs)
VALUES = {}  # "module.name" -> value factory (vm)
METHODS = {}  # class -> {name: fn}


def model(*names, shared=False):
    def deco(fn):
        for n in names:
            MODELS[n] = Ext(n, fn, shared)
        return fn

    return deco


def method(cls, *names, shared=False):
    def deco(fn):
        for n in names:
            METHODS.setdefault(cls, {})[n] = Ext(f"{cls}.{n}", fn, shared)
        return fn

    return deco


EXC_TREE = """BaseException
 SystemExit
 KeyboardInterrupt
 GeneratorExit
 CancelledError
 Exception
  StopIteration
  StopAsyncIteration
  ArithmeticError
   ZeroDivisionError
   OverflowError
   FloatingPointError
  AssertionError
  AttributeError
  BufferError
  EOFError
  ImportError
   ModuleNotFoundError
  LookupError
   IndexError
   KeyError
  MemoryError
  NameError
   UnboundLocalError
  OSError
   BlockingIOError
   ChildProcessError
   ConnectionError
    BrokenPipeError
    ConnectionResetError
   FileExistsError
   FileNotFoundError
   InterruptedError
   PermissionError
   ProcessLookupError
   TimeoutError
  ReferenceError
  RuntimeError
   NotImplementedError
   RecursionError
  SyntaxError
  TypeError
  ValueError
   UnicodeError
    UnicodeDecodeError
    UnicodeEncodeError
  struct.error
  pickle.PickleError
   pickle.PicklingError
   pickle.UnpicklingError
  InvalidStateError
  curses.error
  json.JSONDecodeError
  psutil.Error
   psutil.NoSuchProcess
  Warning
   UserWarning
   DeprecationWarning
   RuntimeWarning"""


def setup(vm):
    T = vm.T
    obj = VClass("object", (), {}, builtin=True)
    T["object"] = obj

    def cls(name, bases=("object",), payload=None, **ns):
        d = dict(ns)
        if payload:
            d["$payload"] = payload
        c = VClass(name, tuple(T[b] for b in bases), d, builtin=True)
        T[name] = c
        return c

    for n in ("type", "NoneType", "int", "float", "str", "bytes", "tuple", "function", "method",
              "builtin_function_or_method", "module", "partial", "complex", "cell", "generator", "coroutine", "async_generator",
              "iterator", "$suspend", "slice", "range", "ellipsis", "property", "staticmethod", "classmethod", "super",
              "memoryview", "bytearray", "traceback"):
        cls(n)
    cls("bool", ("int",))
    cls("num", ("float",))
    cls("list", payload="list")
    cls("dict", payload="dict")
    cls("set", payload="set")
    cls("frozenset", ("set",), **{"$hashable": True})
    cls("defaultdict", ("dict",))
    cls("OrderedDict", ("dict",))
    cls("Counter", ("dict",))
    cls("ChainMap", ("dict",))
    cls("bidict", ("dict",))
    cls("dict_view")
    cls("Enum")
    cls("IntEnum", ("Enum", "int"))
    cls("StrEnum", ("Enum", "str"))
    cls("Flag", ("Enum",))
    cls("ABC")
    cls("Generic")
    cls("opaque", **{"$opaque": True})
    cls("auto")
    stack = []
    for line in EXC_TREE.splitlines():
        d = len(line) - len(line.lstrip())
        n = line.strip()
        base = stack[d - 1] if d else "object"
        del stack[d:]
        c = VClass(n.split(".")[-1], (T[base],), {}, module=n.split(".")[0] if "." in n else "builtins", builtin=True)
        T[n] = c
        if "." in n:
            T[n.split(".")[-1]] = T.get(n.split(".")[-1], c)
        stack.append(n)
    T["IOError"] = T["OSError"]

    for cn, ms in METHODS.items():
        T[cn].ns.update(ms)
    for c in list(T.values()):
        if c.issub(T["BaseException"]) and c is T["BaseException"]:
            c.ns["__init__"] = Ext("BaseException.__init__", exc_init)
    vm.build_class = Ext("__build_class__", build_class)
    vm.super_ext = Ext("super", lambda vm, a, k: SuperProxy(a[0], a[1]))
    b = {n: T[n] for n in T if "." not in n and n not in ("num", "opaque", "auto", "Enum", "IntEnum", "StrEnum", "Flag", "ABC",
         "Generic", "CancelledError", "InvalidStateError", "defaultdict", "OrderedDict", "Counter", "ChainMap", "bidict",
         "$suspend", "cell", "iterator", "generator", "coroutine", "error")}
    b.update({"None": None, "True": True, "False": False, "Ellipsis": Ellipsis, "NotImplemented": NotImpl,
              "super": vm.super_ext, "__build_class__": vm.build_class, "__debug__": True, "__name__": "builtins"})
    for n, e in MODELS.items():
        if n.startswith("builtins."):
            b[n[9:]] = e
    vm.builtins = b
    vm.mutable_attrs = set()
    vm.mixed_enums = False
    vm.all_classes = []
    vm.repo = None


# ---------------------------------------------------------------------------- VM helper methods
def vm_method(fn):
    """adds a method to VM; names of builtins keep their host meaning in this module"""
    import builtins

    setattr(VM, fn.__name__, fn)
    return getattr(builtins, fn.__name__, fn)


@vm_method
def is_same(vm, a, b):
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is Sym or tb is Sym:
        if (a is None or b is None):
            s = a if ta is Sym else b
            if vm.eq3(s, None) is None:
                return vm.fact(("eq", *sorted((a, b), key=repr)), f"{s!r} is None") == 0
            return False
        return False
    if ta in (int, str, bytes, bool, float) and ta is tb:
        return a == b
    if ta is tuple and tb is tuple and not a and not b:
        return True
    if ta is Bound and tb is Bound:
        return False
    return False


@vm_method
def exc_match(vm, exc, cls):
    if type(cls) is tuple:
        return any(vm.exc_match(exc, c) for c in cls)
    if type(cls) is VClass:
        return exc.cls.issub(cls)
    if type(cls) is Sym:
        return vm.fact(("excmatch", exc.cls, cls), f"{exc.cls.name} is {cls!r}") == 0
    return False


@vm_method
def len(vm, v):
    t = type(v)
    if t in (str, bytes, tuple, range):
        return v.__len__()
    if t is Obj:
        m = v.cls.lookup("__len__")
        if type(m) is VFunc:
            return vm.call(m, (v,))
        if v.cls.payload in ("list", "dict", "set"):
            return v.x.__len__()
        if type(m) is Ext:
            return vm.call(m, (v,))
        if v.cls.ns.get("$opaque"):
            return vm.unk("int")
    if t is VClass and v.is_enum:
        return v.members.__len__()
    if t is Sym:
        return TERM("len", v)
    vm.throw("TypeError", f"object of type '{vm.type_name(v)}' has no len()")


@vm_method
def contains(vm, c, v):
    t = type(c)
    if t is Obj:
        m = c.cls.lookup("__contains__")
        if type(m) is VFunc:
            return vm.truth(vm.call(m, (c, v)))
        p = c.cls.payload
        if p in ("dict", "set"):
            return vm.find_key(c.x, v) is not MISSING
        if p == "list":
            return any(vm.eq(e, v) for e in c.x)
        if type(m) is Ext:
            return vm.truth(vm.call(m, (c, v)))
        if c.cls.lookup("__iter__") is not MISSING or c.cls.name in ("generator", "iterator"):
            return any(vm.eq(e, v) for e in vm.iterate(c))
        if c.cls.ns.get("$opaque"):
            return vm.choose(2, "in unknown") == 0
        vm.throw("TypeError", f"argument of type '{c.cls.name}' is not iterable")
    if t is tuple or t is range:
        return any(vm.eq(e, v) for e in c)
    if t in (str, bytes):
        if type(v) is t:
            return v in c
        if type(v) is Sym:
            return vm.fact(("in", v, c), f"{v!r} in {c!r}") == 0
        if t is bytes and type(v) is int:
            return v in c
        vm.throw("TypeError", "'in <string>' requires string as left operand")
    if t is VClass and c.is_enum:
        if type(v) is EnumMember:
            return v.cls is c
        return any(vm.eq(m.value, v) for m in c.members.values())
    if t is Sym:
        from .strings import str_contains

        r = str_contains(vm, c, v)
        if r is not None:
            return r
        return vm.fact(("in", v, c), f"{v!r} in {c!r}") == 0
    vm.throw("TypeError", f"argument of type '{vm.type_name(c)}' is not iterable")


@vm_method
def concat_str(vm, parts):
    if all(type(p) is str for p in parts):
        return "".join(parts)
    from .strings import concat

    return concat(vm, parts)


@vm_method
def format(vm, v, spec, conv):
    if type(spec) is Sym:
        return TERM("fmt", v, spec)
    if type(v) in (int, float, str, bool, bytes, type(None)):
        if conv == 2:
            v = repr(v)
        elif conv == 1:
            v = str(v)
        try:
            return v.__format__(spec) if not (v is None) else "None"
        except (ValueError, TypeError) as e:
            vm.throw("ValueError", str(e))
    if type(v) is Sym:
        if conv == 0 and spec == "" and sym_type(v) == "str":
            return v
        return TERM("fmt", v, spec, conv)
    if type(v) is EnumMember and any(c.name in ("StrEnum", "IntEnum") for c in v.cls.mro) and type(v.value) in (int, str):
        return v.value.__format__(spec)
    if type(v) is EnumMember and not spec:
        return f"{v.cls.name}.{v.name}"
    return TERM("fmt", describe_stable(vm, v), spec, conv)


def describe_stable(vm, v):
    t = type(v)
    if t is Obj:
        return f"<{v.cls.name}>"
    if t in (tuple,):
        return "(...)"
    return repr(v)[:60]


_PERCENT = re.compile(r"%(?:\((\w+)\))?([-+ 0#]*)(\d*)(\.\d+)?([a-zA-Z%])")


def percent(vm, text, values):
    """text % values with symbolic values, as the parts it consists of"""
    mapping = values.x if type(values) is Obj and values.cls.payload == "dict" else None
    rest = list(values) if type(values) is tuple else [values]
    parts, at = [], 0
    for m in _PERCENT.finditer(text):
        if "%" in text[at:m.start()]:
            return None
        parts.append(text[at:m.start()])
        at = m.end()
        name, flags, width, precision, kind = m.groups()
        if kind == "%":
            parts.append("%")
            continue
        if name is not None:
            if mapping is None:
                return None
            v = vm.subscr(values, name)
        elif not rest:
            vm.throw("TypeError", "not enough arguments for format string")
        else:
            v = rest.pop(0)
        if kind in "sra":
            w = (("<" if "-" in flags else ">") + width) if width else ""
            v = vm.format(v, "", {"s": 1, "r": 2, "a": 3}[kind]) if kind != "s" or not (type(v) is str or type(v) is Sym and sym_type(v) == "str") else v
            parts.append(vm.format(v, w, 0) if w else v)
        elif kind in "diufFeEgGxXoc":
            spec = ("<" if "-" in flags else "") + flags.replace("-", "").replace("#", "") + width
            if kind in "diu":
                if type(v) is float:
                    v = int(v)
                elif type(v) is Sym and sym_type(v) != "int":
                    v = TERM("int", v)
                parts.append(vm.format(v, spec, 0))
            else:
                parts.append(vm.format(v, spec + (precision or (".6" if kind in "fF" else "")) + kind, 0))
        else:
            return None
    if "%" in text[at:]:
        return None
    parts.append(text[at:])
    if rest and mapping is None and not (type(values) is not tuple and not parts):
        vm.throw("TypeError", "not all arguments converted during string formatting")
    from .strings import concat

    return concat(vm, parts)


BIN = {0: "+", 1: "&", 2: "//", 3: "<<", 4: "@", 5: "*", 6: "%", 7: "|", 8: "**", 9: ">>", 10: "-", 11: "/", 12: "^"}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "|": "or", "&": "and",
          "^": "xor", "**": "pow", "<<": "lshift", ">>": "rshift", "@": "matmul"}


def flag_member(vm, c, value):
    for m in c.members.values():
        if m.value == value:
            return m
    key = f"$flag{value}"
    m = c.ns.get(key)
    if m is None:
        m = c.ns[key] = EnumMember(c, "|".join(n for n, x in c.members.items() if type(x.value) is int and x.value & value == x.value and x.value) or "0", value,
                                   c.members.__len__())
    return m


@vm_method
def binary(vm, a, arg, b):
    inplace = arg >= 13
    o = BIN[arg % 13]
    ta, tb = type(a), type(b)
    if ta in (int, float, bool) and tb in (int, float, bool):
        return arith(vm, a, o, b)
    if is_num(a) and is_num(b):
        return sym_arith(vm, a, o, b)
    if ta is Obj or tb is Obj or ta is EnumMember or tb is EnumMember:
        if ta is Obj:
            p = a.cls.payload
            if inplace:
                m = vm.find_method(a, f"__i{DUNDER[o]}__")
                if m is not None:
                    r = vm.call(m, (b,))
                    if r is not NotImpl:
                        return r
                if p == "list" and o == "+":
                    a.x.extend(list(vm.iterate(b)))
                    return a
                if p == "set" and o in "|&-^":
                    r = set_op(vm, a, o, b)
                    a.x = r.x
                    return a
                if p == "dict" and o == "|":
                    vm.dict_update(a, b)
                    return a
            m = vm.find_method(a, f"__{DUNDER[o]}__")
            if m is not None:
                r = vm.call(m, (b,))
                if r is not NotImpl:
                    return r
            if tb is Obj:
                q = b.cls.payload
                if p == "list" and q == "list" and o == "+":
                    return vm.list(a.x + b.x)
                if p == "set" and q == "set" and o in "|&-^":
                    return set_op(vm, a, o, b)
                if p == "dict" and q == "dict" and o == "|":
                    d = vm.new(a.cls, dict(a.f), dict(a.x))
                    vm.dict_update(d, b)
                    return d
            if p == "list" and o == "*" and tb in (int, bool):
                return vm.list(a.x * b)
            if p == "list" and o == "*" and is_num(b):
                return vm.list(a.x * 2)
            if a.cls.ns.get("$opaque"):
                return vm.unk()
        if tb is Obj:
            m = vm.find_method(b, f"__r{DUNDER[o]}__")
            if m is not None:
                r = vm.call(m, (a,))
                if r is not NotImpl:
                    return r
            if b.cls.payload == "list" and o == "*" and ta in (int, bool):
                return vm.list(b.x * a)
            if b.cls.ns.get("$opaque"):
                return vm.unk()
        if ta is Sym and sym_type(a) == "obj" or tb is Sym and sym_type(b) == "obj":
            return vm.unk()
        if ta is str and o == "%":
            return TERM("fmt", a, describe_stable(vm, b))
        if ta is EnumMember and a.cls.issub(vm.T["Flag"]) and o in "|&^" and type(a.value) is int:
            w = b.value if tb is EnumMember else b
            if type(w) is int:
                return flag_member(vm, a.cls, {"|": a.value | w, "&": a.value & w, "^": a.value ^ w}[o])
        if ta is EnumMember or tb is EnumMember:
            x, y = (e.value if type(e) is EnumMember and any(c.name in ("int", "str", "bytes", "Flag") for c in e.cls.mro) else e for e in (a, b))
            if x is not a or y is not b:
                return vm.binary(x, arg, y)
        vm.throw("TypeError", f"unsupported operand type(s) for {o}: '{vm.type_name(a)}' and '{vm.type_name(b)}'")
    if ta is tuple and tb is tuple and o == "+":
        return a + b
    if ta is tuple and o == "*" and tb is int:
        return a * b
    if ta in (str, bytes) and tb is ta and o == "+":
        return a + b
    if ta in (str, bytes) and o == "*" and tb in (int, bool):
        return a * b
    if ta is str and o == "%":
        try:
            if tb in (str, int, float) or (tb is tuple and all(type(x) in (str, int, float) for x in b)):
                return a % b
        except TypeError as e:
            vm.throw("TypeError", str(e))
        r = percent(vm, a, b)
        return r if r is not None else TERM("fmt", a, b if tb is not Obj else describe_stable(vm, b))
    if ta is Sym or tb is Sym:
        sa = sym_type(a) if ta is Sym else {str: "str", bytes: "bytes", type(None): "NoneType"}.get(ta, "obj")
        sb = sym_type(b) if tb is Sym else {str: "str", bytes: "bytes", type(None): "NoneType"}.get(tb, "obj")
        if o == "+" and sa == sb == "str":
            return vm.concat_str([a, b])
        if o == "+" and sa == sb == "bytes":
            return TERM("cat", a, b)
        if o == "%" and sa == "str":
            return TERM("fmt", a, b if tb is not Obj else describe_stable(vm, b))
        if o == "*" and (sa in ("str", "bytes") or sb in ("str", "bytes")):
            return vm.unk(sa if sa in ("str", "bytes") else sb)
        if "NoneType" in (sa, sb) or {sa, sb} == {"str", "bytes"} or (
                {"str", "bytes"} & {sa, sb} and {"num", "int", "float"} & {sa, sb}):
            vm.throw("TypeError", f"unsupported operand type(s) for {o}")
        return TERM("op" + o, a if ta is not Obj else describe_stable(vm, a), b if tb is not Obj else describe_stable(vm, b))
    if ta in (TypeAlias, VClass) or tb in (TypeAlias, VClass):
        if o == "|":
            u = []
            for z in (a, b):
                u.extend(z.x if type(z) is Obj else [z])
            return TypeAlias("types.Union")
    vm.throw("TypeError", f"unsupported operand type(s) for {o}: '{vm.type_name(a)}' and '{vm.type_name(b)}'")


def arith(vm, a, o, b):
    try:
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/":
            return a / b
        if o == "//":
            return a // b
        if o == "%":
            return a % b
        if o == "**":
            return a ** b
        if o == "|":
            return a | b
        if o == "&":
            return a & b
        if o == "^":
            return a ^ b
        if o == "<<":
            return a << b
        if o == ">>":
            return a >> b
    except ZeroDivisionError:
        vm.throw("ZeroDivisionError", "division by zero")
    except OverflowError:
        vm.throw("OverflowError", "")
    except TypeError as e:
        vm.throw("TypeError", str(e))
    raise AnalysisError(f"operator {o}")


def sym_arith(vm, a, o, b):
    if o == "+":
        return lin_add(a, b)
    if o == "-":
        return lin_add(a, b, -1)
    if o == "*":
        if type(a) in (int, float, bool):
            return lin_scale(b, a)
        if type(b) in (int, float, bool):
            return lin_scale(a, b)
        x, y = sorted((a, b), key=repr)
        return TERM("mul", x, y)
    if o in ("/", "//", "%"):
        if type(b) in (int, float, bool):
            if b == 0:
                vm.throw("ZeroDivisionError", "division by zero")
        elif vm.rel(b, "==", 0):
            vm.throw("ZeroDivisionError", "division by zero")
        if o == "/" and type(b) in (int, float):
            it, c = lin_of(a)
            if all((cc % b) == 0 for cc in it.values()) and c % b == 0:
                return mk_lin({s: cc // b for s, cc in it.items()}, c // b)
        return TERM({"/": "truediv", "//": "floordiv", "%": "mod"}[o], a, b)
    if o == "**":
        return TERM("pow", a, b)
    return vm.unk("int")


def set_op(vm, a, o, b):
    r = vm.new(a.cls if not a.cls.ns.get("$guest") else vm.T["set"], None, {})
    if o == "|":
        r.x = dict(a.x)
        for k in b.x:
            vm.dict_set(r, k, True)
    elif o == "&":
        for k in a.x:
            if vm.find_key(b.x, k) is not MISSING:
                r.x[k] = True
    elif o == "-":
        for k in a.x:
            if vm.find_key(b.x, k) is MISSING:
                r.x[k] = True
    else:
        for k in a.x:
            if vm.find_key(b.x, k) is MISSING:
                r.x[k] = True
        for k in b.x:
            if vm.find_key(a.x, k) is MISSING:
                r.x[k] = True
    return r


def norm_slice(vm, lo, hi, st):
    for v in (lo, hi, st):
        if v is not None and type(v) not in (int, bool):
            if type(v) is Sym and is_num(v):
                raise Symbolic()
            vm.throw("TypeError", "slice indices must be integers")
    return slice(lo, hi, st)


class Symbolic(Exception):
    pass


@vm_method
def slice(vm, o, lo, hi, st):
    import builtins

    t = type(o)
    if t is Sym:
        return TERM("slice", o, lo, hi) if sym_type(o) in ("bytes", "str", "obj") and sym_type(o) != "str" else TERM(
            "str", o, lo, hi)
    try:
        sl = norm_slice_(vm, lo, hi, st)
    except Symbolic:
        # unknown bound: any prefix / the whole
        if t is Obj and o.cls.payload == "list":
            if st not in (None, 1):
                return vm.unk("obj")
            n = o.x.__len__()
            i = vm.choose(n + 1, "slice bound") if type(lo) is Sym else lo
            j = vm.choose(n + 1, "slice bound") if type(hi) is Sym else hi
            return vm.list(o.x[i:j])
        return vm.unk("str" if t is str else "bytes" if t is bytes else "obj")
    if t in (str, bytes, tuple, range):
        return o[sl]
    if t is Obj and o.cls.payload == "list":
        m = o.cls.lookup("__getitem__")
        if type(m) is VFunc:
            return vm.call(m, (o, vm.new(vm.T["slice"], {}, [lo, hi, st])))
        return vm.list(o.x[sl])
    if t is Obj:
        m = vm.find_method(o, "__getitem__")
        if m is not None:
            return vm.call(m, (vm.new(vm.T["slice"], {}, [lo, hi, st]),))
    vm.throw("TypeError", f"'{vm.type_name(o)}' object is not subscriptable")


def norm_slice_(vm, lo, hi, st):
    import builtins

    for v in (lo, hi, st):
        if v is not None and type(v) not in (int, bool):
            if type(v) is Sym and is_num(v):
                raise Symbolic()
            vm.throw("TypeError", "slice indices must be integers")
    return builtins.slice(lo, hi, st)


@vm_method
def subscr(vm, o, k):
    t = type(o)
    if t is Obj:
        p = o.cls.payload
        m = o.cls.lookup("__getitem__")
        if type(m) is VFunc:
            return vm.call(m, (o, k))
        if p == "dict":
            v = vm.dict_get(o, k)
            if v is not MISSING:
                return v
            mi = o.cls.lookup("__missing__")
            if mi is not MISSING:
                return vm.call(mi, (o, k))
            vm.throw("KeyError", k)
        if p == "list":
            if type(k) is Obj and k.cls.name == "slice":
                return vm.slice(o, *k.x)
            if type(k) not in (int, bool):
                if type(k) is Sym and is_num(k):
                    n = o.x.__len__()
                    if n == 0:
                        vm.throw("IndexError", "list index out of range")
                    i = vm.fact(("index", k, n), f"index {k!r}", n)
                    return o.x[i]
                vm.throw("TypeError", "list indices must be integers or slices")
            try:
                return o.x[k]
            except IndexError:
                vm.throw("IndexError", "list index out of range")
        if m is not MISSING:
            return vm.call(m, (o, k))
        if o.cls.ns.get("$opaque"):
            return vm.unk()
    elif t in (tuple, str, bytes, range):
        if type(k) is Obj and k.cls.name == "slice":
            return vm.slice(o, *k.x)
        if type(k) in (int, bool):
            try:
                return o[k]
            except IndexError:
                vm.throw("IndexError", f"{vm.type_name(o)} index out of range")
        if type(k) is Sym and is_num(k):
            return o[vm.fact(("index", k, o.__len__()), f"index {k!r}", o.__len__())]
        vm.throw("TypeError", f"{vm.type_name(o)} indices must be integers or slices")
    elif t is VClass:
        if o.is_enum:
            if type(k) is str:
                if k in o.members:
                    return o.members[k]
                vm.throw("KeyError", k)
            names = list(o.members)
            i = vm.choose(names.__len__() + 1, f"{o.name}[{k!r}]")
            if i == names.__len__():
                vm.throw("KeyError", k)
            return o.members[names[i]]
        return o
    elif t is TypeAlias:
        return o
    elif t is Sym:
        w = vm.world.sym_subscr(vm, o, k) if vm.world is not None else MISSING
        if w is not MISSING:
            return w
        if type(k) in (int, str, bytes) or type(k) is Sym:
            return TERM("item", o, k)
        if type(k) is Obj and k.cls.name == "slice":
            return TERM("slice", o, *[z for z in k.x])
        return vm.unk()
    elif t is Ext:
        return o
    vm.throw("TypeError", f"'{vm.type_name(o)}' object is not subscriptable")


@vm_method
def store_subscr(vm, o, k, v):
    if type(o) is Obj:
        m = o.cls.lookup("__setitem__")
        if type(m) is VFunc:
            vm.call(m, (o, k, v))
            return
        p = o.cls.payload
        if p == "dict":
            if o.frozen:
                raise AnalysisError("write to a static dict")
            if o.cls.name == "bidict":
                bidict_put(vm, o, k, v)
                return
            vm.dict_set(o, k, v)
            return
        if p == "list":
            if type(k) is Obj and k.cls.name == "slice":
                o.x[norm_slice_(vm, *k.x)] = list(vm.iterate(v))
                return
            if type(k) is Sym and is_num(k) and o.x:
                o.x[vm.fact(("index", k, o.x.__len__()), f"index {k!r}", o.x.__len__())] = v
                return
            try:
                o.x[k] = v
            except IndexError:
                vm.throw("IndexError", "list assignment index out of range")
            except TypeError:
                vm.throw("TypeError", "list indices must be integers")
            return
        if m is not MISSING:
            vm.call(m, (o, k, v))
            return
        if o.cls.ns.get("$opaque"):
            return
    if type(o) is Sym:
        return
    vm.throw("TypeError", f"'{vm.type_name(o)}' object does not support item assignment")


@vm_method
def del_subscr(vm, o, k):
    if type(o) is Obj:
        m = o.cls.lookup("__delitem__")
        if type(m) is VFunc:
            vm.call(m, (o, k))
            return
        p = o.cls.payload
        if p == "dict":
            e = vm.find_key(o.x, k)
            if e is MISSING:
                vm.throw("KeyError", k)
            del o.x[e]
            return
        if p == "list":
            if type(k) is Obj and k.cls.name == "slice":
                del o.x[norm_slice_(vm, *k.x)]
                return
            try:
                del o.x[k]
            except IndexError:
                vm.throw("IndexError", "list assignment index out of range")
            return
    vm.throw("TypeError", f"'{vm.type_name(o)}' object doesn't support item deletion")


@vm_method
def dict_update(vm, d, v):
    if type(v) is Obj and v.cls.payload == "dict":
        for k, w in list(v.x.items()):
            vm.dict_set(d, k, w)
    elif type(v) is Sym:
        pass
    elif type(v) is Obj and v.cls.lookup("keys") is not MISSING:
        for k in vm.iterate(vm.call(vm.getattr(v, "keys"), ())):
            vm.dict_set(d, k, vm.subscr(v, k))
    else:
        for p in vm.iterate(v):
            k, w = vm.unpack(p, 2)
            vm.dict_set(d, k, w)


@vm_method
def unpack(vm, v, n):
    items = list(vm.iterate(v))
    if items.__len__() != n:
        vm.throw("ValueError", "unpack")
    return items


@vm_method
def to_str(vm, v):
    if type(v) is str:
        return v
    if type(v) in (int, float, bool, bytes, type(None)):
        return str(v)
    if type(v) is Sym:
        if sym_type(v) == "str":
            return v
        return TERM("str", v)
    if type(v) is Obj:
        m = v.cls.lookup("__str__")
        if type(m) is VFunc:
            return vm.call(m, (v,))
        m = v.cls.lookup("__repr__")
        if type(m) is VFunc and not v.cls.issub(vm.T["BaseException"]):
            return vm.call(m, (v,))
        if v.cls.issub(vm.T["BaseException"]):
            a = v.f.get("args", ())
            if a.__len__() == 1:
                return vm.to_str(a[0]) if v.cls.name != "KeyError" else _repr(vm, a, {})
            if not a:
                return ""
    r = exact_repr(v)
    if r is not None:
        return r
    if type(v) is EnumMember:
        if v.cls.issub(vm.T["IntEnum"]) or v.cls.issub(vm.T["StrEnum"]):
            return vm.to_str(v.value)
        return f"{v.cls.name}.{v.name}"
    return TERM("str", describe_stable(vm, v))


# ---------------------------------------------------------------------------- classes
def exc_init(vm, a, k):
    a[0].f["args"] = tuple(a[1:])


def build_class(vm, args, kwargs):
    fn, name, *bases = args
    bases = [b for b in bases]
    rb = []
    named = False
    for b in bases:
        if type(b) is TypeAlias:
            if b.name.endswith("NamedTuple"):
                named = True
            continue
        if type(b) is Obj and b.cls.ns.get("$opaque"):
            continue
        if type(b) is Sym:
            continue
        if type(b) is not VClass:
            continue
        rb.append(b)
    if not rb:
        rb = [vm.T["object"]]
    ns = {"__module__": fn.module.name, "__qualname__": fn.qualname}
    fr = vm.make_frame(fn, (), {})
    fr.ns = ns
    res = []
    fr.mode = "nested"
    fr.data = res
    vm.run_nested(fr)
    cell = res[1]
    c = VClass(name, rb, ns, module=fn.module.name)
    c.uid = f"{fn.module.name}.{fn.qualname}"
    ns["$guest"] = True
    for f_ in ns.values():
        if type(f_) is VFunc:
            pass
    if any(n in ns for n in ("__get__", "__set__", "__delete__")) or any("$descriptor" in b.ns for b in c.mro[1:]):
        ns["$descriptor"] = True
    if any(b.issub(vm.T["Enum"]) for b in rb):
        make_enum(vm, c)
    if type(cell) is Obj and cell.cls is vm.T["cell"]:
        cell.x[0] = c
    for b in c.mro[1:]:
        isub = b.ns.get("__init_subclass__")
        if isub is not None:
            vm.call(isub.func if type(isub) is Wrapper else isub, (c,), {k: v for k, v in kwargs.items() if k != "metaclass"})
            break
    for n, v in list(ns.items()):
        if type(v) is Obj and v.cls.lookup("__set_name__") is not MISSING:
            vm.call(vm.getattr(v, "__set_name__"), (c, n))
    meta = kwargs.get("metaclass")
    if type(meta) is VClass and meta.ns.get("$guest"):
        c.ns["$metaclass"] = meta
    vm.all_classes.append(c)
    if named:
        from .libmods import make_namedtuple

        make_namedtuple(vm, c)
    return c


def make_enum(vm, c):
    c.is_enum = True
    if any(b.name in ("str", "int", "bytes", "float") and b.builtin for b in c.mro):
        vm.mixed_enums = True
    last = 0
    for b in c.mro[1:]:
        c.members.update(b.members)
    for n, v in list(c.ns.items()):
        if n.startswith("_") or n.startswith("$") or type(v) in (VFunc, Wrapper, VClass, Ext):
            continue
        if type(v) is Obj and v.cls is vm.T["auto"]:
            if any(b.name == "StrEnum" for b in c.mro):
                v = n.lower()
            elif c.issub(vm.T["Flag"]):
                v = 1 << last.bit_length()
            else:
                v = last + 1
        if type(v) is int:
            last = v
        m = None
        for o in c.members.values():
            if type(o.value) is type(v) and not isinstance(v, Obj) and o.value == v:
                m = o
        if m is None:
            m = EnumMember(c, n, v, c.members.__len__())
        c.members[n] = m
        del c.ns[n]


# ---------------------------------------------------------------------------- builtins
@model("builtins.isinstance")
def _isinstance(vm, a, k):
    return vm.isinstance(a[0], a[1])


@model("builtins.issubclass")
def _issubclass(vm, a, k):
    c = a[1] if type(a[1]) is tuple else (a[1],)
    if type(a[0]) is not VClass:
        vm.throw("TypeError", "issubclass() arg 1 must be a class")
    return any(type(x) is VClass and a[0].issub(x) for x in c)


@model("builtins.callable")
def _callable(vm, a, k):
    return vm.is_callable(a[0])


@model("builtins.len")
def _len(vm, a, k):
    return vm.len(a[0])


MODELS["builtins.len"].shared = True


@model("builtins.hash")
def _hash(vm, a, k):
    v = a[0]
    vm.hashable(v)
    m = vm.find_method(v, "__hash__") if type(v) is Obj else None
    if m is not None and type(m.func) is VFunc:
        return vm.call(m, ())
    if type(v) is int:
        return v
    if type(v) is Obj:
        if v.cls.dc_fields is not None and v.cls.ns.get("$frozen_dc"):
            return _hash(vm, (tuple(v.f.get(f[0]) for f in v.cls.dc_fields if f[5]),), {})
        return Sym("unk", 10 ** 9 + v.serial, "int")
    return TERM("hash", v if type(v) is not tuple else describe(v))


@model("builtins.id")
def _id(vm, a, k):
    return TERM("id", a[0] if type(a[0]) is not Obj else a[0].serial)


@model("builtins.getattr")
def _getattr(vm, a, k):
    if type(a[1]) is not str:
        return vm.unk()
    if a.__len__() > 2:
        try:
            return vm.getattr(a[0], a[1], a[2])
        except GuestError as e:
            if e.obj.cls.issub(vm.T["AttributeError"]):
                return a[2]
            raise
    return vm.getattr(a[0], a[1])


@model("builtins.hasattr")
def _hasattr(vm, a, k):
    mark = object()
    try:
        return vm.getattr(a[0], a[1], mark) is not mark
    except GuestError as e:
        if e.obj.cls.issub(vm.T["AttributeError"]):
            return False
        raise


@model("builtins.setattr")
def _setattr(vm, a, k):
    vm.setattr(a[0], a[1], a[2])


@model("builtins.delattr")
def _delattr(vm, a, k):
    vm.delattr(a[0], a[1])


@model("builtins.print", "builtins.input", "builtins.open", "builtins.exec", "builtins.eval", "builtins.compile",
       "builtins.breakpoint")
def _print(vm, a, k):
    return None


def exact_repr(v):
    """text of a value that consists of constants only, or None"""
    if type(v) in (int, float, bool, str, bytes, type(None)):
        return repr(v)
    if type(v) is tuple:
        e = [exact_repr(x) for x in v]
        return None if None in e else "(" + ", ".join(e) + ("," if e.__len__() == 1 else "") + ")"
    if type(v) is Obj and v.cls.builtin:
        if v.cls.name == "list":
            e = [exact_repr(x) for x in v.x]
            return None if None in e else "[" + ", ".join(e) + "]"
        if v.cls.name == "dict":
            e = [(exact_repr(x), exact_repr(y)) for x, y in v.x.items()]
            return None if any(None in x for x in e) else "{" + ", ".join(x + ": " + y for x, y in e) + "}"
        if "args" in v.f and "BaseException" in [c.name for c in v.cls.mro]:
            e = [exact_repr(x) for x in v.f["args"]]
            return None if None in e else v.cls.name + "(" + ", ".join(e) + ")"
    return None


@model("builtins.ascii")
def _ascii(vm, a, k):
    return ascii(a[0]) if type(a[0]) in (str, int, bytes, float) else _repr(vm, a, k)


@model("builtins.repr")
def _repr(vm, a, k):
    v = a[0]
    r = exact_repr(v)
    if r is not None:
        return r
    m = vm.find_method(v, "__repr__") if type(v) is Obj else None
    if m is not None and type(m.func) is VFunc:
        return vm.call(m, ())
    return TERM("repr", v if type(v) is Sym else describe_stable(vm, v))


@model("builtins.format")
def _format(vm, a, k):
    return vm.format(a[0], a[1] if a.__len__() > 1 else "", 0)


@model("builtins.iter")
def _iter(vm, a, k):
    if a.__len__() == 2:
        return vm.new(vm.T["iterator"], None, ["callable", a[0], a[1]])
    return vm.get_iter(a[0])


@model("builtins.next")
def _next(vm, a, k):
    v = vm.iter_next(a[0])
    if v is MISSING:
        if a.__len__() > 1:
            return a[1]
        stop(vm, a[0])
    return v


def stop(vm, g):
    r = g.f.pop("result", None) if type(g) is Obj and g.cls is vm.T["generator"] else None
    e = vm.make_exc("StopIteration", *([r] if r is not None else []))
    e.f["value"] = r
    raise GuestError(vm.note(e))


@model("builtins.all")
def _all(vm, a, k):
    for v in vm.iterate(a[0]):
        if not vm.truth(v):
            return False
    return True


@model("builtins.any")
def _any(vm, a, k):
    for v in vm.iterate(a[0]):
        if vm.truth(v):
            return True
    return False


@model("builtins.sum")
def _sum(vm, a, k):
    r = a[1] if a.__len__() > 1 else k.get("start", 0)
    for v in vm.iterate(a[0]):
        r = vm.binary(r, 0, v)
    return r


def _minmax(vm, a, k, o):
    items = list(vm.iterate(a[0])) if a.__len__() == 1 else list(a)
    key = k.get("key")
    if not items:
        if "default" in k:
            return k["default"]
        vm.throw("ValueError", "min() iterable argument is empty")
    best = items[0]
    kb = best if key is None else vm.call(key, (best,))
    for v in items[1:]:
        kv = v if key is None else vm.call(key, (v,))
        if vm.truth(vm.compare(kv, o, kb)):
            best, kb = v, kv
    return best


@model("builtins.min")
def _min(vm, a, k):
    return _minmax(vm, a, k, "<")


@model("builtins.max")
def _max(vm, a, k):
    return _minmax(vm, a, k, ">")


def sort_items(vm, items, key, reverse):
    import functools

    if key is not None:
        dec = [(vm.call(key, (v,)), i, v) for i, v in enumerate(items)]
    else:
        dec = [(v, i, v) for i, v in enumerate(items)]

    def cmp(x, y):
        if vm.truth(vm.compare(x[0], "<", y[0])):
            return -1 if not reverse else 1
        if vm.truth(vm.compare(y[0], "<", x[0])):
            return 1 if not reverse else -1
        return x[1] - y[1]

    dec.sort(key=functools.cmp_to_key(cmp))
    return [d[2] for d in dec]


@model("builtins.sorted")
def _sorted(vm, a, k):
    return vm.list(sort_items(vm, list(vm.iterate(a[0])), k.get("key"), vm.truth(k.get("reverse", False))))


@model("builtins.reversed")
def _reversed(vm, a, k):
    v = a[0]
    m = vm.find_method(v, "__reversed__") if type(v) is Obj else None
    if m is not None and type(m.func) is VFunc:
        return vm.call(m, ())
    return vm.new(vm.T["iterator"], None, ["tuple", tuple(reversed(list(vm.iterate(v)))), 0])


@model("builtins.enumerate")
def _enumerate(vm, a, k):
    return vm.new(vm.T["iterator"], None, ["enum", vm.get_iter(a[0]), k.get("start", a[1] if a.__len__() > 1 else 0)])


@model("builtins.zip")
def _zip(vm, a, k):
    return vm.new(vm.T["iterator"], None, ["zip", [vm.get_iter(v) for v in a], bool(k.get("strict", False))])


@model("builtins.map")
def _map(vm, a, k):
    return vm.new(vm.T["iterator"], None, ["map", [vm.get_iter(v) for v in a[1:]], a[0]])


@model("builtins.filter")
def _filter(vm, a, k):
    return vm.new(vm.T["iterator"], None, ["filter", vm.get_iter(a[1]), a[0], True])


@model("builtins.abs")
def _abs(vm, a, k):
    return abs(a[0]) if type(a[0]) in (int, float, bool) else TERM("abs", a[0])


@model("builtins.round")
def _round(vm, a, k):
    if type(a[0]) in (int, float, bool):
        return round(*a)
    return TERM("round", *a)


@model("builtins.divmod")
def _divmod(vm, a, k):
    return (vm.binary(a[0], 2, a[1]), vm.binary(a[0], 6, a[1]))


@model("builtins.pow")
def _pow(vm, a, k):
    return vm.binary(a[0], 8, a[1])


@model("builtins.ord")
def _ord(vm, a, k):
    return ord(a[0]) if type(a[0]) in (str, bytes) else TERM("int", a[0])


@model("builtins.chr")
def _chr(vm, a, k):
    return chr(a[0]) if type(a[0]) is int else TERM("str", a[0])


@model("builtins.bin", "builtins.hex", "builtins.oct")
def _hexf(vm, a, k):
    return TERM("str", a[0])


@model("builtins.vars")
def _vars(vm, a, k):
    return vm.dict(dict(a[0].f)) if a and type(a[0]) is Obj else vm.dict()


@model("builtins.globals", "builtins.locals", "builtins.dir")
def _globals(vm, a, k):
    return vm.dict(dict(vm.cur.frames[-1].mod.ns)) if vm.cur.frames else vm.dict()


@model("builtins.__import__", "importlib.import_module")
def _import(vm, a, k):
    return vm.import_module(a[0])


@model("typing.cast")
def _cast(vm, a, k):
    return a[1]


@model("typing.get_type_hints", "typing.get_args")
def _gth(vm, a, k):
    return vm.dict()


# constructors of builtin types ------------------------------------------------------------
def newext(cls):
    def deco(fn):
        METHODS.setdefault(cls, {})["__new__"] = Ext(f"{cls}.__new__", fn)
        return fn

    return deco


@newext("type")
def _type_new(vm, a, k):
    if a.__len__() == 2:
        v = a[1]
        if type(v) is Sym and vm.world is not None:
            w = vm.world.sym_type(vm, v)
            if w is not MISSING:
                return w
        return vm.class_of(v)
    return VClass(a[1], [b for b in a[2]] or [vm.T["object"]], dict(a[3].x))


@newext("int")
def _int_new(vm, a, k):
    if a.__len__() == 1:
        return 0
    v = a[1]
    if type(v) in (int, float, bool):
        return int(v)
    if type(v) in (str, bytes):
        try:
            return int(v, *a[2:])
        except (ValueError, TypeError) as e:
            vm.throw("ValueError", f"invalid literal for int() with base 10: {v!r}")
    if type(v) is Sym:
        from .strings import str_to_int

        r = str_to_int(vm, v)
        if r is not None:
            return r
        if sym_type(v) == "int":
            return v
        return TERM("int", v)
    if type(v) is EnumMember and type(v.value) is int:
        return v.value
    m = vm.find_method(v, "__int__") or vm.find_method(v, "__index__")
    if m is not None:
        return vm.call(m, ())
    vm.throw("TypeError", "int() argument must be a string or a number")


@newext("float")
def _float_new(vm, a, k):
    if a.__len__() == 1:
        return 0.0
    v = a[1]
    if type(v) in (int, float, bool, str):
        try:
            return float(v)
        except ValueError:
            vm.throw("ValueError", f"could not convert string to float: {v!r}")
    if type(v) is Sym:
        if sym_type(v) in ("float", "num", "int"):
            return v
        return TERM("float", v)
    vm.throw("TypeError", "float() argument must be a string or a real number")


@newext("bool")
def _bool_new(vm, a, k):
    return vm.truth(a[1]) if a.__len__() > 1 else False


@newext("str")
def _str_new(vm, a, k):
    if a.__len__() == 1:
        return ""
    if a.__len__() > 2 or k:
        return vm.call(vm.getattr(a[1], "decode"), a[2:], k)
    return vm.to_str(a[1])


@newext("bytes")
def _bytes_new(vm, a, k):
    if a.__len__() == 1:
        return b""
    v = a[1]
    if type(v) in (bytes, int):
        return bytes(v)
    if type(v) is str and a.__len__() > 2:
        return v.encode(a[2])
    if type(v) is Sym and sym_type(v) == "bytes":
        return v
    if type(v) is Obj and v.cls.payload == "list" and all(type(e) is int for e in v.x):
        return bytes(v.x)
    if type(v) is tuple and all(type(e) is int for e in v):
        return bytes(v)
    return TERM("encode", v if type(v) is Sym else describe_stable(vm, v))


METHODS.setdefault("bytearray", {})["__new__"] = Ext("bytearray", _bytes_new)
METHODS.setdefault("memoryview", {})["__new__"] = Ext("memoryview", lambda vm, a, k: a[1])


@newext("tuple")
def _tuple_new(vm, a, k):
    if a.__len__() == 1:
        return ()
    if type(a[1]) is tuple:
        return a[1]
    return tuple(vm.iterate(a[1], limit=100000))


@newext("range")
def _range_new(vm, a, k):
    args = []
    for v in a[1:]:
        if type(v) in (int, bool):
            args.append(int(v))
        elif type(v) is Sym and is_num(v):
            # unknown bound: 0, 1 or 2 elements
            n = None
            for c in (0, 1, 2):
                if vm.rel(v, "<=" if c == 0 else "==", c):
                    n = c
                    break
            if n is None:
                n = 3
            args.append(n)
        else:
            vm.throw("TypeError", f"'{vm.type_name(v)}' object cannot be interpreted as an integer")
    return range(*args)


@newext("object")
def _object_new(vm, a, k):
    cls = a[0]
    if cls.payload is None and cls is not vm.T["object"] and (a[1:] or k) and cls.lookup("__init__") is MISSING:
        vm.throw("TypeError", f"{cls.name}() takes no arguments")
    ab = vm.abstract_methods(cls)
    if ab:
        vm.throw("TypeError", f"Can't instantiate abstract class {cls.name} without an implementation for {ab[0]!r}")
    return vm.new_instance(cls)


@newext("slice")
def _slice_new(vm, a, k):
    v = a[1:]
    if v.__len__() == 1:
        v = (None, v[0], None)
    elif v.__len__() == 2:
        v = (v[0], v[1], None)
    return vm.new(vm.T["slice"], {}, list(v))


@newext("property")
def _property(vm, a, k):
    return Wrapper("property", a[1] if a.__len__() > 1 else None, a[2] if a.__len__() > 2 else None)


@newext("staticmethod")
def _static(vm, a, k):
    return Wrapper("staticmethod", a[1])


@newext("classmethod")
def _classm(vm, a, k):
    return Wrapper("classmethod", a[1])


@method("list", "__init__")
def _list_init(vm, a, k):
    if a.__len__() > 1:
        a[0].x[:] = list(vm.iterate(a[1], limit=100000))


@method("dict", "__init__", "update")
def _dict_init(vm, a, k):
    if a.__len__() > 1:
        vm.dict_update(a[0], a[1])
    for n, v in k.items():
        vm.dict_set(a[0], n, v)


METHODS["dict"]["update"].shared = True


@method("set", "__init__", "update")
def _set_init(vm, a, k):
    for s in a[1:]:
        for v in vm.iterate(s):
            vm.dict_set(a[0], v, True)


METHODS["set"]["update"].shared = True


# methods ------------------------------------------------------------------------------------
def lm(*names):
    return method("list", *names, shared=True)


@lm("append", "add_")
def _append(vm, a, k):
    a[0].x.append(a[1])


@lm("extend")
def _extend(vm, a, k):
    a[0].x.extend(list(vm.iterate(a[1])))


@lm("insert")
def _insert(vm, a, k):
    a[0].x.insert(a[1], a[2])


@lm("pop")
def _lpop(vm, a, k):
    l = a[0].x
    if not l:
        vm.throw("IndexError", "pop from empty list")
    try:
        return l.pop(*a[1:])
    except IndexError:
        vm.throw("IndexError", "pop index out of range")
    except TypeError:
        return l.pop(vm.fact(("index", a[1], l.__len__()), "index", l.__len__()))


@lm("remove")
def _lremove(vm, a, k):
    for i, e in enumerate(a[0].x):
        if vm.eq(e, a[1]):
            del a[0].x[i]
            return
    vm.throw("ValueError", "list.remove(x): x not in list")


@lm("index")
def _lindex(vm, a, k):
    for i, e in enumerate(a[0].x):
        if vm.eq(e, a[1]):
            return i
    vm.throw("ValueError", "is not in list")


@lm("count")
def _lcount(vm, a, k):
    return sum(1 for e in a[0].x if vm.eq(e, a[1]))


@lm("clear")
def _lclear(vm, a, k):
    a[0].x.clear()


@lm("copy", "__copy__")
def _lcopy(vm, a, k):
    return vm.new(a[0].cls, dict(a[0].f), list(a[0].x))


@lm("reverse")
def _lreverse(vm, a, k):
    a[0].x.reverse()


@lm("sort")
def _lsort(vm, a, k):
    a[0].x[:] = sort_items(vm, list(a[0].x), k.get("key"), vm.truth(k.get("reverse", False)))


@lm("__len__")
def _llen(vm, a, k):
    return a[0].x.__len__()


@lm("__contains__")
def _lcontains(vm, a, k):
    return any(vm.eq(e, a[1]) for e in a[0].x)


@lm("__getitem__")
def _lgetitem(vm, a, k):
    return vm.subscr(a[0], a[1])


@lm("__setitem__")
def _lsetitem(vm, a, k):
    return vm.store_subscr(a[0], a[1], a[2])


@lm("__iter__")
def _liter(vm, a, k):
    return vm.new(vm.T["iterator"], None, ["list", a[0], 0])


@lm("appendleft")
def _appendleft(vm, a, k):
    a[0].x.insert(0, a[1])


@lm("popleft")
def _popleft(vm, a, k):
    if not a[0].x:
        vm.throw("IndexError", "pop from an empty deque")
    return a[0].x.pop(0)


@lm("rotate")
def _rotate(vm, a, k):
    x = a[0].x
    n = a[1] if a.__len__() > 1 else 1
    if type(n) is not int:
        n = vm.choose(len(x), "rotation") if x else 0
    if x:
        n %= len(x)
        x[:] = x[len(x) - n:] + x[:len(x) - n]


@lm("extendleft")
def _extendleft(vm, a, k):
    for e in vm.iterate(a[1]):
        a[0].x.insert(0, e)


def dm(*names):
    return method("dict", *names, shared=True)


@dm("get")
def _dget(vm, a, k):
    v = vm.dict_get(a[0], a[1])
    return v if v is not MISSING else (a[2] if a.__len__() > 2 else k.get("default"))


@dm("pop")
def _dpop(vm, a, k):
    o = a[0]
    e = vm.find_key(o.x, a[1])
    if e is MISSING:
        if a.__len__() > 2:
            return a[2]
        if "default" in k:
            return k["default"]
        vm.throw("KeyError", a[1])
    v = o.x.pop(e)
    if o.cls.name == "bidict":
        o.f["inverse"].x.pop(v, None)
    return v


@dm("popitem")
def _dpopitem(vm, a, k):
    if not a[0].x:
        vm.throw("KeyError", "popitem(): dictionary is empty")
    last = k.get("last", a[1] if a.__len__() > 1 else True)
    if last:
        return a[0].x.popitem()
    key = next(iter(a[0].x))
    return key, a[0].x.pop(key)


@dm("move_to_end")
def _move(vm, a, k):
    e = vm.find_key(a[0].x, a[1])
    if e is MISSING:
        vm.throw("KeyError", a[1])
    v = a[0].x.pop(e)
    if k.get("last", a[2] if a.__len__() > 2 else True):
        a[0].x[e] = v
    else:
        rest = dict(a[0].x)
        a[0].x.clear()
        a[0].x[e] = v
        a[0].x.update(rest)


@dm("setdefault")
def _dsetdefault(vm, a, k):
    v = vm.dict_get(a[0], a[1])
    if v is MISSING:
        v = a[2] if a.__len__() > 2 else None
        vm.dict_set(a[0], a[1], v)
    return v


@dm("clear")
def _dclear(vm, a, k):
    a[0].x.clear()


@dm("copy", "__copy__")
def _dcopy(vm, a, k):
    return vm.new(a[0].cls, dict(a[0].f), dict(a[0].x))


@dm("keys", "__iter__")
def _dkeys(vm, a, k):
    return vm.new(vm.T["dict_view"], None, ["keys", a[0]])


@dm("values")
def _dvalues(vm, a, k):
    return vm.new(vm.T["dict_view"], None, ["values", a[0]])


@dm("items")
def _ditems(vm, a, k):
    return vm.new(vm.T["dict_view"], None, ["items", a[0]])


@dm("__len__")
def _dlen(vm, a, k):
    return a[0].x.__len__()


@dm("__contains__")
def _dcontains(vm, a, k):
    return vm.find_key(a[0].x, a[1]) is not MISSING


@dm("__getitem__")
def _dgetitem(vm, a, k):
    v = vm.dict_get(a[0], a[1])
    if v is MISSING:
        mi = a[0].cls.lookup("__missing__")
        if mi is not MISSING:
            return vm.call(mi, a[:2])
        vm.throw("KeyError", a[1])
    return v


@dm("__setitem__")
def _dsetitem(vm, a, k):
    vm.dict_set(a[0], a[1], a[2])


@dm("__delitem__")
def _ddelitem(vm, a, k):
    e = vm.find_key(a[0].x, a[1])
    if e is MISSING:
        vm.throw("KeyError", a[1])
    del a[0].x[e]


METHODS["dict"]["fromkeys"] = Wrapper("classmethod", Ext("dict.fromkeys", lambda vm, a, k: vm.dict(
    {x: (a[2] if a.__len__() > 2 else None) for x in vm.iterate(a[1])})))


def view_items(o):
    kind, d = o.x
    return list(d.x) if kind == "keys" else list(d.x.values()) if kind == "values" else list(d.x.items())


@method("dict_view", "__iter__")
def _view_iter(vm, a, k):
    kind, d = a[0].x
    return vm.new(vm.T["iterator"], None, [kind, d, 0, d.x.__len__()])


@method("dict_view", "__len__")
def _view_len(vm, a, k):
    return a[0].x[1].x.__len__()


@method("dict_view", "__contains__")
def _view_contains(vm, a, k):
    kind, d = a[0].x
    if kind == "keys":
        return vm.find_key(d.x, a[1]) is not MISSING
    return any(vm.eq(e, a[1]) for e in view_items(a[0]))


def _view_setop(o):
    def fn(vm, a, k):
        s = vm.set(view_items(a[0]))
        b = a[1] if type(a[1]) is Obj and a[1].cls.payload == "set" else vm.set(list(vm.iterate(a[1])))
        return set_op(vm, s, o, b)

    return fn


for _o, _n in (("|", "or"), ("&", "and"), ("-", "sub"), ("^", "xor")):
    METHODS["dict_view"][f"__{_n}__"] = Ext(f"dict_view.__{_n}__", _view_setop(_o))


def _view_cmp(o):
    def fn(vm, a, k):
        b = a[1] if type(a[1]) is Obj and a[1].cls.payload == "set" else vm.set(list(vm.iterate(a[1])))
        return vm.compare(vm.set(view_items(a[0])), o, b)

    return fn


for _o, _n in (("<", "lt"), ("<=", "le"), (">", "gt"), (">=", "ge")):
    METHODS["dict_view"][f"__{_n}__"] = Ext(f"dict_view.__{_n}__", _view_cmp(_o))


@method("dict_view", "__eq__")
def _view_eq(vm, a, k):
    o = a[1]
    if type(o) is Obj and o.cls.payload == "set":
        return set(view_items(a[0])) == set(o.x)
    if type(o) is Obj and o.cls.name == "dict_view":
        return set(view_items(a[0])) == set(view_items(o))
    return NotImpl


def sm(*names):
    return method("set", *names, shared=True)


@sm("add")
def _sadd(vm, a, k):
    vm.dict_set(a[0], a[1], True)


@sm("discard")
def _sdiscard(vm, a, k):
    e = vm.find_key(a[0].x, a[1])
    if e is not MISSING:
        del a[0].x[e]


@sm("remove")
def _sremove(vm, a, k):
    e = vm.find_key(a[0].x, a[1])
    if e is MISSING:
        vm.throw("KeyError", a[1])
    del a[0].x[e]


@sm("pop")
def _spop(vm, a, k):
    if not a[0].x:
        vm.throw("KeyError", "pop from an empty set")
    keys = list(a[0].x)
    key = keys[vm.choose(keys.__len__(), "set.pop")]
    del a[0].x[key]
    return key


@sm("clear")
def _sclear(vm, a, k):
    a[0].x.clear()


@sm("copy", "__copy__")
def _scopy(vm, a, k):
    return vm.new(a[0].cls, None, dict(a[0].x))


@sm("__len__")
def _slen(vm, a, k):
    return a[0].x.__len__()


@sm("__contains__")
def _scontains(vm, a, k):
    return vm.find_key(a[0].x, a[1]) is not MISSING


@sm("__iter__")
def _siter(vm, a, k):
    return vm.new(vm.T["iterator"], None, ["tuple", vm.set_order(a[0]), 0, a[0]])


def _setm(o, inplace=False):
    def fn(vm, a, k):
        r = a[0]
        for b in a[1:]:
            bb = b if type(b) is Obj and b.cls.payload == "set" else vm.set(list(vm.iterate(b)))
            r = set_op(vm, r, o, bb)
        if inplace:
            a[0].x = r.x
            return None
        return r if r is not a[0] else vm.new(a[0].cls, None, dict(a[0].x))

    return fn


for _n, _o in (("union", "|"), ("intersection", "&"), ("difference", "-"), ("symmetric_difference", "^")):
    METHODS["set"][_n] = Ext(f"set.{_n}", _setm(_o), True)
for _n, _o in (("intersection_update", "&"), ("difference_update", "-"), ("symmetric_difference_update", "^")):
    METHODS["set"][_n] = Ext(f"set.{_n}", _setm(_o, True), True)


@sm("issubset")
def _sissubset(vm, a, k):
    return all(vm.contains(a[1], x) for x in a[0].x)


@sm("issuperset")
def _sissuperset(vm, a, k):
    return all(vm.contains(a[0], x) for x in vm.iterate(a[1]))


@sm("isdisjoint")
def _sisdisjoint(vm, a, k):
    return not any(vm.contains(a[0], x) for x in vm.iterate(a[1]))


# generators / iterators
@method("generator", "__next__", "__anext__")
def _gnext(vm, a, k):
    v = vm.iter_next(a[0])
    if v is MISSING:
        stop(vm, a[0])
    return v


METHODS["iterator"] = {"__next__": METHODS["generator"]["__next__"], "__iter__": Ext("iter", lambda vm, a, k: a[0])}
METHODS["generator"]["__iter__"] = METHODS["iterator"]["__iter__"]


@method("generator", "send")
def _gsend(vm, a, k):
    v = vm.gen_resume(a[0], a[1])
    if v is MISSING:
        stop(vm, a[0])
    return v


@method("generator", "throw")
def _gthrow(vm, a, k):
    e = a[-1]
    if type(e) is VClass:
        e = vm.call(e, ())
    v = vm.gen_resume(a[0], None, e)
    if v is MISSING:
        stop(vm, a[0])
    return v


@method("generator", "close")
def _gclose(vm, a, k):
    g = a[0]
    if g.x is not None and g.f.get("started") and g.cls is vm.T["generator"]:
        try:
            vm.gen_resume(g, None, vm.make_exc("GeneratorExit"))
        except GuestError as e:
            if not (e.obj.cls.issub(vm.T["GeneratorExit"]) or e.obj.cls.issub(vm.T["StopIteration"])):
                raise
    g.x = None


METHODS["coroutine"] = {"close": METHODS["generator"]["close"], "__await__": Ext("coroutine.__await__", lambda vm, a, k: a[0])}


# numbers
@method("int", "to_bytes")
def _to_bytes(vm, a, k):
    if type(a[0]) is int and all(type(x) in (int, str) for x in a[1:]) and all(type(v) in (int, str, bool) for v in k.values()):
        return a[0].to_bytes(*a[1:], **k)
    return TERM("pack", "to_bytes", (a[0],))


METHODS["int"]["from_bytes"] = Wrapper("staticmethod", Ext("int.from_bytes", lambda vm, a, k: (
    a[0].a[2][0] if type(a[0]) is Sym and a[0].k == "term" and a[0].a[:2] == ("pack", "to_bytes") else
    int.from_bytes(a[0], *a[1:], **k) if type(a[0]) is bytes else TERM("int", a[0]))))


@method("int", "bit_length")
def _bl(vm, a, k):
    return TERM("int", a[0])


@method("float", "is_integer")
def _isint(vm, a, k):
    return vm.unk()


# strings
def str_host(name):
    def fn(vm, a, k):
        if all(type(v) in (str, bytes, int, type(None), bool) for v in a) and not k:
            return wrap_host(vm, host_try(vm, lambda: getattr(a[0], name)(*a[1:])))
        if all(type(v) in (str, bytes, int, type(None), bool) for v in list(a) + list(k.values())):
            return wrap_host(vm, host_try(vm, lambda: getattr(a[0], name)(*a[1:], **k)))
        from .strings import str_method

        return str_method(vm, name, a, k)

    return fn


def host_try(vm, fn):
    try:
        return fn()
    except ValueError as e:
        vm.throw("UnicodeDecodeError" if isinstance(e, UnicodeError) else "ValueError", str(e))
    except (TypeError, AttributeError) as e:
        vm.throw("TypeError", str(e))
    except (KeyError, IndexError) as e:
        vm.throw(type(e).__name__, str(e))


def wrap_host(vm, v):
    if type(v) is list:
        return vm.list([wrap_host(vm, x) for x in v])
    if type(v) is dict:
        return vm.dict({x: wrap_host(vm, y) for x, y in v.items()})
    if type(v) is tuple:
        return tuple(wrap_host(vm, x) for x in v)
    if type(v) is set:
        return vm.set(sorted(v, key=repr))
    if isinstance(v, bytearray):
        return bytes(v)
    return v


for _n in ("split rsplit strip lstrip rstrip upper lower title startswith endswith replace partition rpartition find rfind index "
           "rindex count isdigit isalpha isalnum isspace isnumeric isdecimal isidentifier splitlines zfill ljust rjust center "
           "capitalize expandtabs swapcase removeprefix removesuffix casefold isupper islower translate isascii isprintable").split():
    METHODS.setdefault("str", {})[_n] = Ext(f"str.{_n}", str_host(_n))
    METHODS.setdefault("bytes", {})[_n] = Ext(f"bytes.{_n}", str_host(_n))
METHODS["str"]["encode"] = Ext("str.encode", str_host("encode"))
METHODS["bytes"]["decode"] = Ext("bytes.decode", str_host("decode"))
METHODS["bytes"]["hex"] = Ext("bytes.hex", str_host("hex"))
METHODS["bytes"]["fromhex"] = Wrapper("staticmethod", Ext("bytes.fromhex", lambda vm, a, k: TERM("encode", a[0])))
METHODS["bytes"]["tobytes"] = Ext("bytes.tobytes", lambda vm, a, k: a[0])


@method("str", "format")
def _sformat(vm, a, k):
    if type(a[0]) is not str:
        return TERM("str", a[0])
    try:
        if all(type(v) in (str, int, float, bool) for v in list(a[1:]) + list(k.values())):
            return a[0].format(*a[1:], **k)
    except (KeyError, IndexError, ValueError) as e:
        vm.throw(type(e).__name__, str(e))
    parts = []
    import string

    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(a[0]):
        if lit:
            parts.append(lit)
        if field is not None:
            if field == "":
                v = a[1 + auto]
                auto += 1
            elif field.isdigit():
                v = a[1 + int(field)]
            elif field in k:
                v = k[field]
            else:
                v = vm.unk("str")
            parts.append(vm.format(v, spec or "", {None: 0, "s": 1, "r": 2, "a": 3}[conv]))
    return vm.concat_str(parts)


@method("str", "join")
def _sjoin(vm, a, k):
    items = list(vm.iterate(a[1]))
    if not items:
        return ""
    out = []
    for i, v in enumerate(items):
        if type(v) not in (str, Sym):
            vm.throw("TypeError", f"sequence item {i}: expected str instance, {vm.type_name(v)} found")
        if type(v) is Sym and sym_type(v) not in ("str", "obj"):
            vm.throw("TypeError", f"sequence item {i}: expected str instance, {vm.type_name(v)} found")
        if i:
            out.append(a[0])
        out.append(v)
    return vm.concat_str(out)


@method("bytes", "join")
def _bjoin(vm, a, k):
    items = list(vm.iterate(a[1]))
    if all(type(v) is bytes for v in items) and type(a[0]) is bytes:
        return a[0].join(items)
    return TERM("cat", *items) if items else b""


@method("tuple", "index")
def _tindex(vm, a, k):
    for i, e in enumerate(a[0]):
        if vm.eq(e, a[1]):
            return i
    vm.throw("ValueError", "tuple.index(x): x not in tuple")


@method("tuple", "count")
def _tcount(vm, a, k):
    return sum(1 for e in a[0] if vm.eq(e, a[1]))


@method("BaseException", "with_traceback", "add_note")
def _with_tb(vm, a, k):
    return a[0]


@method("BaseException", "__str__")
def _exc_str(vm, a, k):
    ar = a[0].f.get("args", ())
    return vm.to_str(ar[0]) if ar.__len__() == 1 else TERM("str", "exception")


for _i, _n in enumerate(("start", "stop", "step")):
    METHODS.setdefault("slice", {})[_n] = Wrapper("property", Ext("slice." + _n, lambda vm, a, k, i=_i: a[0].x[i]))


@method("object", "__setattr__")
def _obj_setattr(vm, a, k):
    vm.setattr(a[0], a[1], a[2], True)


@method("Flag", "__bool__")
def _flag_bool(vm, a, k):
    return vm.truth(a[0].value)


@method("Flag", "__contains__")
def _flag_contains(vm, a, k):
    return a[0].value & a[1].value == a[1].value


@method("object", "__reduce__", "__reduce_ex__", "__getstate__", "__sizeof__", "__dir__")
def _obj_reduce(vm, a, k):
    return vm.unk()


@method("function", "__get__")
def _fget(vm, a, k):
    return Bound(a[0], a[1]) if a[1] is not None else a[0]


# ---------------------------------------------------------------------------- modules
from . import libmods  # noqa: E402,F401


def external_attr(vm, mod, name):
    return libmods.external_attr(vm, mod, name)


def bidict_put(vm, o, k, v):
    inv = o.f["inverse"]
    e = vm.find_key(inv.x, v)
    if e is not MISSING and not vm.eq(inv.x[e], k):
        vm.throw("ValueError", "ValueDuplicationError")
    old = vm.dict_get(o, k)
    if old is not MISSING:
        inv.x.pop(old, None)
    vm.dict_set(o, k, v)
    vm.dict_set(inv, v, k)
