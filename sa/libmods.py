"""Models of library modules (host part): attributes of external modules, struct, pickle, dataclasses, ..."""
from __future__ import annotations

import struct as _struct

from .values import *  # noqa: F401,F403
from .values import is_num, lin_add, lin_scale, sym_type
from .vm import AnalysisError, Cut, GuestError, Suspend, VM

from . import lib as L
from .lib import MODELS, VALUES, METHODS, model, method

CONST = {}


def value(*names):
    def deco(fn):
        for n in names:
            VALUES[n] = fn
        return fn

    return deco


DECORATORS_IDENTITY = ("typing.overload", "typing.final", "typing.no_type_check", "typing.runtime_checkable", "enum.unique",
                       "atexit.register", "typing.override")


def ident(vm, a, k):
    return a[0]


for _n in DECORATORS_IDENTITY:
    MODELS[_n] = Ext(_n, ident)


def noop(vm, a, k):
    return None


NOOPS = """gc.enable gc.disable gc.freeze logging.info logging.error logging.warning logging.debug logging.exception
logging.critical logging.log logging.warn logging.addLevelName logging.basicConfig logging.config.dictConfig
tblib.pickling_support.install warnings.warn warnings.filterwarnings warnings.simplefilter time.sleep_ sys.exit_ traceback.print_exc faulthandler.enable
traceback.print_exception""".split()
for _n in NOOPS:
    MODELS[_n] = Ext(_n, noop)

OPAQUE_CLASSES = """logging.Logger logging.Handler logging.Formatter psutil.Process_ argparse.ArgumentDefaultsHelpFormatter
argparse.RawTextHelpFormatter ctypes.Structure datetime.datetime datetime.timedelta""".split()


def opaque_class(vm, full):
    c = vm.opaque_classes.get(full)
    if c is None:
        mod, _, n = full.rpartition(".")
        c = VClass(n, (vm.T["object"],), {"$opaque": True, "__init__": Ext("__init__", noop)}, module=mod, builtin=True)
        c.uid = full
        vm.opaque_classes[full] = c
    return c


TYPE_MODULES = ("typing", "collections.abc", "types", "typing_extensions", "_typeshed")


def external_attr(vm, mod, name):
    full = mod.name + "." + name
    if full in MODELS:
        return MODELS[full]
    if full in VALUES:
        return VALUES[full](vm)
    sub = vm.import_module(full, prelude_only=True)
    if sub is not None:
        return sub
    if mod.name in TYPE_MODULES:
        if name == "TYPE_CHECKING":
            return False
        return TypeAlias(full)
    if name in vm.T and vm.T[name].issub(vm.T["BaseException"]):
        return vm.T[name]
    if name.startswith("__"):
        vm.throw("AttributeError", f"module {mod.name!r} has no attribute {name!r}")
    if name.isupper() or (name.upper() == name and "_" in name):
        if mod.name in ("logging",):
            return {"CRITICAL": 50, "ERROR": 40, "WARNING": 30, "INFO": 20, "DEBUG": 10, "NOTSET": 0}.get(name, 0)
        return ATOM(full, "obj")
    if name[0].isupper():
        return opaque_class(vm, full)
    return Ext(full, lambda vm, a, k: vm.unk())


# ---------------------------------------------------------------------------- values
for _m, _names in {
    "collections": ["defaultdict", "OrderedDict", "Counter", "ChainMap", "deque"],
    "enum": ["Enum", "IntEnum", "StrEnum", "Flag", "auto"],
    "abc": ["ABC"],
    "bidict": ["bidict"],
    "struct": ["error"],
    "asyncio": ["CancelledError"],
    "asyncio.exceptions": ["CancelledError", "InvalidStateError", "TimeoutError"],
    "pickle": ["PickleError", "PicklingError", "UnpicklingError"],
    "json": ["JSONDecodeError"],
    "curses": ["error"],
    "psutil": ["Error", "NoSuchProcess"],
    "builtins": [],
}.items():
    for _n in _names:
        def _f(vm, m=_m, n=_n):
            return vm.T[{"struct.error": "struct.error", "curses.error": "curses.error"}.get(m + "." + n, n)]

        VALUES[f"{_m}.{_n}"] = _f
VALUES["abc.ABCMeta"] = lambda vm: TypeAlias("abc.ABCMeta")
VALUES["enum.EnumMeta"] = lambda vm: TypeAlias("enum.EnumMeta")
VALUES["enum.IntFlag"] = lambda vm: vm.T["Flag"]
VALUES["pickle.HIGHEST_PROTOCOL"] = lambda vm: 5
VALUES["pickle.DEFAULT_PROTOCOL"] = lambda vm: 4
VALUES["bidict.ValueDuplicationError"] = lambda vm: vm.T["ValueError"]
VALUES["os.path"] = lambda vm: vm.import_module("os.path")
VALUES["os.environ"] = lambda vm: vm.new(opaque_class(vm, "os._Environ"))
VALUES["os.name"] = lambda vm: "posix"
VALUES["os.sep"] = lambda vm: "/"
VALUES["sys.platform"] = lambda vm: "linux"
VALUES["sys.stdout"] = lambda vm: vm.new(opaque_class(vm, "sys.TextIO"))
VALUES["sys.stderr"] = VALUES["sys.stdout"]
VALUES["sys.argv"] = lambda vm: vm.list(["prog"])
VALUES["sys.version_info"] = lambda vm: (3, 12, 3)
VALUES["sys.maxsize"] = lambda vm: 2 ** 63 - 1
VALUES["math.inf"] = lambda vm: float("inf")
VALUES["math.pi"] = lambda vm: 3.141592653589793
VALUES["signal.SIGINT"] = lambda vm: 2
VALUES["signal.SIGKILL"] = lambda vm: 9
VALUES["signal.SIGTERM"] = lambda vm: 15
VALUES["signal.SIGUSR1"] = lambda vm: 10
VALUES["signal.SIG_IGN"] = lambda vm: 1
VALUES["signal.SIG_DFL"] = lambda vm: 0
VALUES["signal.Signals"] = lambda vm: TypeAlias("signal.Signals")
VALUES["dataclasses.MISSING"] = lambda vm: DC_MISSING
VALUES["dataclasses.FrozenInstanceError"] = lambda vm: vm.T["AttributeError"]
VALUES["types.SimpleNamespace"] = lambda vm: vm.T["SimpleNamespace"]
VALUES["argparse.Namespace"] = lambda vm: vm.T["SimpleNamespace"]
VALUES["functools.cached_property"] = lambda vm: Ext("cached_property", lambda vm, a, k: Wrapper("cached_property", a[0]))
VALUES["typing.NamedTuple"] = lambda vm: TypeAlias("typing.NamedTuple")
VALUES["operator.attrgetter"] = lambda vm: MODELS["operator.attrgetter"]
VALUES["psutil.Process"] = lambda vm: vm.import_module("_psutil").ns["Process"]
VALUES["ctypes.cdll"] = lambda vm: ATOM("cdll", "obj")
VALUES["ctypes.CDLL"] = lambda vm: MODELS["ctypes.CDLL"]
MODELS["ctypes.CDLL"] = Ext("ctypes.CDLL", lambda vm, a, k: ATOM("cdll", "obj"))
for _n in ("format_exception", "format_exception_only", "format_tb", "format_stack"):
    MODELS[f"traceback.{_n}"] = Ext(f"traceback.{_n}", lambda vm, a, k: vm.list([ATOM("+exc text", "str")]))
MODELS["traceback.format_exc"] = Ext("traceback.format_exc", lambda vm, a, k: ATOM("+exc text", "str"))
for _n in ("ascii_letters", "ascii_lowercase", "ascii_uppercase", "digits", "hexdigits", "octdigits", "punctuation", "whitespace", "printable"):
    VALUES[f"string.{_n}"] = lambda vm, v=getattr(__import__("string"), _n): v
MODELS["types.MappingProxyType"] = Ext("MappingProxyType", ident)
MODELS["types.coroutine"] = Ext("types.coroutine", ident)
for _n, _t in (("FunctionType", "function"), ("LambdaType", "function"), ("NoneType", "NoneType"), ("GeneratorType", "generator"), ("CoroutineType", "coroutine"),
               ("BuiltinFunctionType", "builtin_function_or_method"), ("ModuleType", "module")):
    VALUES[f"types.{_n}"] = lambda vm, t=_t: vm.T[t]
VALUES["types.MethodType"] = lambda vm: vm.T["method"]
DC_MISSING = ATOM("dataclasses.MISSING", "obj")


def setup(vm):
    """classes that need the class table"""
    T = vm.T
    vm.opaque_classes = {}
    if "deque" not in T:
        T["deque"] = VClass("deque", (T["list"],), {}, module="collections", builtin=True)
    T["deque"].ns["__init__"] = Ext("deque.__init__", _deque_init)
    T["deque"].ns["pop"] = Ext("deque.pop", _deque_pop, True)
    for n, front in (("append", True), ("extend", True), ("appendleft", False), ("extendleft", False), ("__iadd__", True)):
        T["deque"].ns[n] = _bounded(n, front)
    T["SimpleNamespace"] = VClass("SimpleNamespace", (T["object"],), {"__init__": Ext("SimpleNamespace.__init__", _sn_init)},
                                  module="types", builtin=True)
    T["defaultdict"].ns["__init__"] = Ext("defaultdict.__init__", _dd_init)
    T["defaultdict"].ns["__missing__"] = Ext("defaultdict.__missing__", _dd_missing)
    T["Counter"].ns["__missing__"] = Ext("Counter.__missing__", lambda vm, a, k: 0)
    T["Counter"].ns["__init__"] = Ext("Counter.__init__", _counter_init)
    T["Counter"].ns["update"] = Ext("Counter.update", _counter_init)
    T["ChainMap"].ns["__init__"] = Ext("ChainMap.__init__", _chainmap_init)
    T["bidict"].ns["__init__"] = Ext("bidict.__init__", _bidict_init)
    T["bidict"].ns["inv"] = Wrapper("property", Ext("inv", lambda vm, a, k: a[0].f["inverse"]))


def _deque_init(vm, a, k):
    a[0].x = list(vm.iterate(a[1])) if a[1:] else []
    ml = k.get("maxlen", a[2] if len(a) > 2 else None)
    if ml is not None:
        a[0].f["maxlen"] = ml
        if type(ml) is int:
            a[0].x = a[0].x[-ml:] if ml else []


def _bounded(n, front):
    base = METHODS["list"]["extend" if n == "__iadd__" else n]

    def fn(vm, a, k):
        base.fn(vm, a, k)
        ml = a[0].f.get("maxlen")
        if ml is not None and type(ml) is not int:
            ml = vm.choose(2, f"length of a deque limited by {ml!r}") and len(a[0].x) - 1
            if not ml:
                return a[0] if n == "__iadd__" else None
        if ml is not None and len(a[0].x) > ml:
            if front:
                del a[0].x[:len(a[0].x) - ml]
            else:
                del a[0].x[ml:]
        return a[0] if n == "__iadd__" else None

    return Ext("deque." + n, fn, getattr(base, "shared", False))


def _deque_pop(vm, a, k):
    if not a[0].x:
        vm.throw("IndexError", "pop from an empty deque")
    return a[0].x.pop()


def _sn_init(vm, a, k):
    a[0].f.update(k)


def _dd_init(vm, a, k):
    a[0].f["default_factory"] = a[1] if a[1:] else None
    METHODS["dict"]["__init__"].fn(vm, (a[0],) + tuple(a[2:]), k)


def _dd_missing(vm, a, k):
    fac = a[0].f.get("default_factory")
    if fac is None:
        vm.throw("KeyError", a[1])
    v = vm.call(fac, ())
    vm.dict_set(a[0], a[1], v)
    return v


def _counter_init(vm, a, k):
    o = a[0]
    if a[1:]:
        src = a[1]
        if type(src) is Obj and src.cls.payload == "dict":
            for kk, v in src.x.items():
                cur = vm.dict_get(o, kk)
                vm.dict_set(o, kk, v if cur is MISSING else vm.binary(cur, 0, v))
        else:
            for e in vm.iterate(src):
                cur = vm.dict_get(o, e)
                vm.dict_set(o, e, 1 if cur is MISSING else vm.binary(cur, 0, 1))
    for kk, v in k.items():
        o.x[kk] = v


def _chainmap_init(vm, a, k):
    for m in reversed(a[1:]):
        vm.dict_update(a[0], m)


def _bidict_init(vm, a, k):
    o = a[0]
    inv = vm.new(vm.T["bidict"], None, {})
    o.f["inverse"] = inv
    inv.f["inverse"] = o
    if a[1:]:
        src = a[1]
        if type(src) is Obj and src.cls.payload == "dict":
            items = list(src.x.items())
        else:
            items = [tuple(vm.iterate(e)) for e in vm.iterate(src)]
        for kk, v in items:
            L.bidict_put(vm, o, kk, v)


# ---------------------------------------------------------------------------- typing helpers
@model("typing.TypeVar", "typing.ParamSpec", "typing.NewType")
def _typevar(vm, a, k):
    return TypeAlias("TypeVar")


@model("abc.abstractmethod", "abc.abstractproperty", "abc.abstractclassmethod", "abc.abstractstaticmethod")
def _abstract(vm, a, k):
    f = a[0]
    while type(f) is Wrapper:
        f = f.func
    if type(f) is VFunc:
        f.attrs["__isabstractmethod__"] = True
    return a[0]


# ---------------------------------------------------------------------------- functools, operator
@model("functools.partial")
def _partial(vm, a, k):
    return Partial(a[0], a[1:], k)


@model("functools.wraps")
def _wraps(vm, a, k):
    src = a[0]

    def deco(vm, b, k2):
        f = b[0]
        if type(f) is VFunc:
            f.attrs["__wrapped__"] = src
            f.attrs["__name__"] = vm.getattr(src, "__name__", "wrapped")
        return f

    return Ext("functools.wraps()", deco)


@model("functools.update_wrapper")
def _update_wrapper(vm, a, k):
    return a[0]


for _n in ("UserDict", "ChainMap"):
    VALUES["collections." + _n] = lambda vm, n=_n: vm.import_module("_collections").ns[n]
VALUES["functools.lru_cache"] = lambda vm: vm.import_module("_cache").ns["lru_cache"]
VALUES["functools.cache"] = lambda vm: vm.import_module("_cache").ns["cache"]


@model("functools.reduce")
def _reduce(vm, a, k):
    it = vm.iterate(a[1])
    acc = a[2] if len(a) > 2 else next(it)
    for e in it:
        acc = vm.call(a[0], (acc, e))
    return acc


@model("functools.total_ordering")
def _total(vm, a, k):
    c = a[0]
    root = next((n for n in ("__lt__", "__le__", "__gt__", "__ge__") if type(c.lookup(n)) is VFunc), None)
    if root is None:
        vm.throw("ValueError", "must define at least one ordering operation: < > <= >=")

    def derive(op):
        def fn(vm, b, k):
            r = vm.call(Bound(c.lookup(root), b[0]), (b[1],))
            if r is NotImpl:
                return r
            strict, same = vm.truth(r), None
            less = root in ("__lt__", "__le__")
            want = op in ("__lt__", "__le__")
            if less == want:                      # < from <=, <= from <, > from >=, >= from >
                return (strict or vm.truth(vm.compare(b[0], "==", b[1]))) if op in ("__le__", "__ge__") else (strict and vm.truth(vm.compare(b[0], "!=", b[1])))
            if (root in ("__lt__", "__gt__")) == (op in ("__le__", "__ge__")):
                return not strict
            if op in ("__lt__", "__gt__"):        # > from <
                return not strict and vm.truth(vm.compare(b[0], "!=", b[1]))
            return not strict or vm.truth(vm.compare(b[0], "==", b[1]))

        return Ext(op, fn)

    for n in ("__lt__", "__le__", "__gt__", "__ge__"):
        if type(c.lookup(n)) is not VFunc:
            c.ns[n] = derive(n)
    return c


def _getter(vm, o, path):
    for p in path.split("."):
        o = vm.getattr(o, p)
    return o


@model("operator.attrgetter")
def _attrgetter(vm, a, k):
    names = a
    return Ext("attrgetter()", lambda vm, b, k: _getter(vm, b[0], names[0]) if len(names) == 1 else tuple(
        _getter(vm, b[0], n) for n in names))


@model("operator.itemgetter")
def _itemgetter(vm, a, k):
    ks = a
    return Ext("itemgetter()", lambda vm, b, k: vm.subscr(b[0], ks[0]) if len(ks) == 1 else tuple(vm.subscr(b[0], n) for n in ks))


@model("operator.methodcaller")
def _methodcaller(vm, a, k):
    return Ext("methodcaller()", lambda vm, b, k2: vm.call(vm.getattr(b[0], a[0]), a[1:], k))


for _o, _i in (("add", 0), ("sub", 10), ("mul", 5), ("or_", 7), ("and_", 1), ("truediv", 11), ("mod", 6)):
    MODELS[f"operator.{_o}"] = Ext(f"operator.{_o}", lambda vm, a, k, i=_i: vm.binary(a[0], i, a[1]))
for _o, _i in (("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">="), ("eq", "=="), ("ne", "!=")):
    MODELS[f"operator.{_o}"] = Ext(f"operator.{_o}", lambda vm, a, k, i=_i: vm.compare(a[0], i, a[1]))
MODELS["operator.not_"] = Ext("operator.not_", lambda vm, a, k: not vm.truth(a[0]))
MODELS["operator.is_"] = Ext("operator.is_", lambda vm, a, k: vm.is_same(a[0], a[1]))
MODELS["operator.is_not"] = Ext("operator.is_not", lambda vm, a, k: not vm.is_same(a[0], a[1]))
MODELS["operator.getitem"] = Ext("operator.getitem", lambda vm, a, k: vm.subscr(a[0], a[1]))
MODELS["operator.contains"] = Ext("operator.contains", lambda vm, a, k: vm.contains(a[0], a[1]))


# ---------------------------------------------------------------------------- dataclasses
class DCField:
    __slots__ = ("name", "default", "factory", "init", "compare", "kw", "repr")

    def __init__(self, default=MISSING, factory=MISSING, init=True, compare=True, kw=False):
        self.name = None
        self.default, self.factory, self.init, self.compare, self.kw = default, factory, init, compare, kw


@model("dataclasses.field")
def _field(vm, a, k):
    return DCField(k.get("default", MISSING), k.get("default_factory", MISSING), k.get("init", True), k.get("compare", True),
                   k.get("kw_only", False))


@model("dataclasses.dataclass")
def _dataclass(vm, a, k):
    if a and type(a[0]) is VClass:
        return make_dataclass(vm, a[0], {})
    return Ext("dataclass()", lambda vm, b, k2: make_dataclass(vm, b[0], k))


def make_dataclass(vm, c, opts):
    fields = {}
    for b in reversed(c.mro[1:]):
        if b.dc_fields and "$dc_own" in b.ns:
            for f in b.dc_fields:
                fields[f[0]] = f
    anns = c.ns.get("__annotations__")
    kw_only = opts.get("kw_only", False)
    if anns is not None:
        for n, ty in (anns.x if type(anns) is Obj else anns).items():
            if type(ty) is TypeAlias and "ClassVar" in ty.name:
                continue
            if type(ty) is str and "ClassVar" in ty:
                continue
            if type(ty) is TypeAlias and ty.name.endswith("KW_ONLY"):
                kw_only = True
                continue
            d = c.ns.get(n, MISSING)
            if type(d) is DCField:
                fields[n] = (n, d.default, d.factory, d.init, d.kw or kw_only, d.compare)
                if d.default is MISSING:
                    del c.ns[n]
                else:
                    c.ns[n] = d.default
            else:
                fields[n] = (n, d, MISSING, True, kw_only, True)
    c.dc_fields = list(fields.values())
    c.ns["$dc_own"] = True
    if not opts.get("eq", True):
        c.ns["$dc_eq"] = False
    if opts.get("frozen"):
        c.ns["$frozen_dc"] = True
    if opts.get("unsafe_hash") or opts.get("frozen"):
        c.ns["$hashable"] = True
    if opts.get("init", True) and type(c.ns.get("__init__")) is not VFunc:
        c.ns["__init__"] = Ext(f"{c.name}.__init__", dc_init(c))
    c.ns["__match_args__"] = tuple(f[0] for f in c.dc_fields if f[3])
    if opts.get("order"):
        def cmp_(o):
            return Ext(o, lambda vm, a, k: vm.seq_cmp(tuple(a[0].f.get(f[0]) for f in c.dc_fields if f[5]), o,
                                                      tuple(a[1].f.get(f[0]) for f in c.dc_fields if f[5])))

        for n, o in (("__lt__", "<"), ("__le__", "<="), ("__gt__", ">"), ("__ge__", ">=")):
            c.ns[n] = cmp_(o)
    return c


def make_namedtuple(vm, c):
    """classes of typing.NamedTuple / collections.namedtuple: frozen records that also are sequences"""
    make_dataclass(vm, c, {"frozen": True, "order": True})
    names = [f[0] for f in c.dc_fields]

    def tup(o):
        return tuple(o.f[n] for n in names) if type(o) is Obj and o.cls is c else o

    def ext(n, fn):
        c.ns.setdefault(n, Ext(f"{c.name}.{n}", fn))

    ext("__iter__", lambda vm, a, k: vm.get_iter(tup(a[0])))
    ext("__len__", lambda vm, a, k: len(names))
    ext("__getitem__", lambda vm, a, k: _lib().subscr(vm, tup(a[0]), a[1]))
    ext("__contains__", lambda vm, a, k: _lib().contains(vm, tup(a[0]), a[1]))
    ext("__eq__", lambda vm, a, k: vm.eq(tup(a[0]), tup(a[1])))
    ext("__hash__", lambda vm, a, k: vm.call(vm.builtins["hash"], (tup(a[0]),)))
    ext("__add__", lambda vm, a, k: tup(a[0]) + tup(a[1]))
    ext("_asdict", lambda vm, a, k: vm.dict({n: a[0].f[n] for n in names}))
    ext("_replace", lambda vm, a, k: vm.call(c, (), {**{n: a[0].f[n] for n in names}, **k}))
    ext("index", lambda vm, a, k: vm.call(vm.getattr(tup(a[0]), "index"), tuple(a[1:])))
    ext("count", lambda vm, a, k: vm.call(vm.getattr(tup(a[0]), "count"), tuple(a[1:])))
    c.ns["_make"] = Wrapper("classmethod", Ext("_make", lambda vm, a, k: vm.call(c, tuple(vm.iterate(a[1])))))
    c.ns["_fields"] = tuple(names)
    c.ns["$namedtuple"] = True
    return c


@model("collections.namedtuple")
def _namedtuple(vm, a, k):
    names = a[1].replace(",", " ").split() if type(a[1]) is str else list(vm.iterate(a[1]))
    c = VClass(a[0], (vm.T["object"],), {"__annotations__": vm.dict({n: None for n in names}), "$guest": True}, module="")
    c.uid = "namedtuple." + a[0] + "." + ".".join(names)
    d = list(vm.iterate(k["defaults"])) if k.get("defaults") is not None else []
    for n, v in zip(names[len(names) - len(d):], d):
        c.ns[n] = v
    vm.all_classes.append(c)
    return make_namedtuple(vm, c)


def dc_init(c):
    def init(vm, a, k):
        o = a[0]
        args = list(a[1:])
        k = dict(k)
        pos = [f for f in c.dc_fields if f[3] and not f[4]]
        if len(args) > len(pos):
            vm.throw("TypeError", f"{c.name}.__init__() takes {len(pos) + 1} positional arguments but {len(args) + 1} were given")
        vals = {}
        for f, v in zip(pos, args):
            vals[f[0]] = v
        for n, v in k.items():
            if n in vals:
                vm.throw("TypeError", f"{c.name}.__init__() got multiple values for argument '{n}'")
            if not any(f[0] == n and f[3] for f in c.dc_fields):
                vm.throw("TypeError", f"{c.name}.__init__() got an unexpected keyword argument '{n}'")
            vals[n] = v
        for f in c.dc_fields:
            n = f[0]
            if n not in vals:
                if f[2] is not MISSING:
                    vals[n] = vm.call(f[2], ())
                elif f[1] is not MISSING:
                    vals[n] = vm.thaw(f[1])
                elif f[3]:
                    vm.throw("TypeError", f"{c.name}.__init__() missing required argument: '{n}'")
                else:
                    continue
            o.f[n] = vals[n]
        pi = o.cls.lookup("__post_init__")
        if pi is not MISSING:
            vm.call(Bound(pi, o), ())

    return init


@model("dataclasses.fields")
def _fields(vm, a, k):
    c = a[0] if type(a[0]) is VClass else a[0].cls
    out = []
    for f in c.dc_fields:
        o = vm.new(vm.T["SimpleNamespace"])
        o.f["name"] = f[0]
        o.f["default"] = DC_MISSING if f[1] is MISSING else f[1]
        out.append(o)
    return tuple(out)


@model("dataclasses.replace")
def _replace(vm, a, k):
    o = a[0]
    vals = {f[0]: o.f[f[0]] for f in o.cls.dc_fields if f[3]}
    vals.update(k)
    return vm.call(o.cls, (), vals)


def _asdict_value(vm, v, as_tuple):
    if type(v) is Obj:
        if v.cls.dc_fields is not None:
            return _asdict_obj(vm, v, as_tuple)
        if v.cls.payload == "list":
            return vm.list([_asdict_value(vm, e, as_tuple) for e in v.x])
        if v.cls.payload == "dict":
            return vm.dict({kk: _asdict_value(vm, e, as_tuple) for kk, e in v.x.items()})
    return v


def _asdict_obj(vm, o, as_tuple):
    items = [(f[0], _asdict_value(vm, o.f[f[0]], as_tuple)) for f in o.cls.dc_fields]
    if as_tuple:
        return tuple(v for _, v in items)
    return vm.dict(dict(items))


MODELS["dataclasses.asdict"] = Ext("asdict", lambda vm, a, k: _asdict_obj(vm, a[0], False))
MODELS["dataclasses.astuple"] = Ext("astuple", lambda vm, a, k: _asdict_obj(vm, a[0], True))
MODELS["dataclasses.is_dataclass"] = Ext("is_dataclass", lambda vm, a, k: (a[0] if type(a[0]) is VClass else vm.class_of(a[0])).dc_fields is not None)


# ---------------------------------------------------------------------------- struct
INT_RANGES = {"b": (-128, 127), "B": (0, 255), "h": (-2 ** 15, 2 ** 15 - 1), "H": (0, 2 ** 16 - 1), "i": (-2 ** 31, 2 ** 31 - 1),
              "I": (0, 2 ** 32 - 1), "l": (-2 ** 63, 2 ** 63 - 1), "L": (0, 2 ** 64 - 1), "q": (-2 ** 63, 2 ** 63 - 1),
              "Q": (0, 2 ** 64 - 1), "n": (-2 ** 63, 2 ** 63 - 1), "N": (0, 2 ** 64 - 1)}


def fmt_codes(vm, fmt):
    if type(fmt) is bytes:
        fmt = fmt.decode()
    if type(fmt) is not str:
        raise AnalysisError("struct format is not constant")
    try:
        _struct.calcsize(fmt)
    except _struct.error as e:
        vm.throw("struct.error", str(e))
    order = "@"
    s = fmt
    if s and s[0] in "@=<>!":
        order, s = s[0], s[1:]
    out = []
    num = ""
    for ch in s:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        n = int(num) if num else 1
        if ch in "sp":
            out.append((ch, n))
        else:
            out.extend([(ch, 1)] * n)
        num = ""
    return order, out


def pack_one(vm, order, code, v):
    c = code[0]
    if c in INT_RANGES or (c in "lL" and order != "@"):
        lo, hi = INT_RANGES[c]
        if c in "lL" and order not in "@":
            lo, hi = INT_RANGES["i" if c == "l" else "I"]
        if type(v) is Obj or v is None or type(v) in (str, bytes) or type(v) is float:
            vm.throw("struct.error", "required argument is not an integer")
        if type(v) is Sym:
            st = sym_type(v)
            if st in ("str", "bytes", "float") or v.k == "id":
                vm.throw("struct.error", "required argument is not an integer")
            if vm.world is not None and vm.world.struct_ranges:
                if vm.rel(v, ">", hi):
                    vm.throw("struct.error", f"'{c}' format requires {lo} <= number <= {hi}")
                if lo == 0 and vm.rel(v, "<", 0):
                    vm.throw("struct.error", f"'{c}' format requires {lo} <= number <= {hi}")
            return v
        if not (lo <= v <= hi):
            vm.throw("struct.error", f"'{c}' format requires {lo} <= number <= {hi}")
        return int(v)
    if c in "fde":
        if c == "f" and type(v) is Sym and v.k == "term" and v.a[0] == "f32":
            return v.a[1]  # rounding twice is rounding once
        if type(v) in (int, float, bool):
            return float(v)
        if is_num(v) or (type(v) is Sym and sym_type(v) == "obj"):
            return v
        vm.throw("struct.error", "required argument is not a float")
    if c == "?":
        if type(v) is Sym:
            return v
        return vm.truth(v)
    if c in "sp":
        if type(v) is Sym and sym_type(v) in ("bytes", "obj") or type(v) is bytes:
            return v
        vm.throw("struct.error", "argument for 's' must be a bytes object")
    return v


@model("struct.pack")
def _pack(vm, a, k):
    order, codes = fmt_codes(vm, a[0])
    codes = [c for c in codes if c[0] != "x"]
    vals = a[1:]
    if len(codes) != len(vals):
        vm.throw("struct.error", f"pack expected {len(codes)} items for packing (got {len(vals)})")
    out = tuple(pack_one(vm, order, c, v) for c, v in zip(codes, vals))
    if all(type(v) in (int, float, bool, bytes) for v in out):
        try:
            return _struct.pack(a[0], *out)
        except (_struct.error, OverflowError) as e:
            vm.throw("struct.error", str(e))
    return TERM("pack", a[0], out)


def unpack_value(code, order, v):
    if code[0] == "f":
        if type(v) in (int, float):
            return _struct.unpack("f", _struct.pack("f", v))[0]
        return TERM("f32", v)
    if code[0] == "?":
        return v
    return v


@model("struct.unpack_from")
def _unpack_from(vm, a, k):
    off = a[2] if a.__len__() > 2 else k.get("offset", 0)
    d = a[1]
    if type(off) is int and (off or type(d) is bytes):
        n = _struct.calcsize(a[0])
        d = vm.slice(d, off, off + n, None)
    return _unpack(vm, (a[0], d), {})


@model("struct.unpack")
def _unpack(vm, a, k):
    order, codes = fmt_codes(vm, a[0])
    codes = [c for c in codes if c[0] != "x"]
    data = a[1]
    if type(data) is bytes:
        try:
            return tuple(_struct.unpack(a[0], data))
        except _struct.error as e:
            vm.throw("struct.error", str(e))
    if type(data) is Sym:
        if data.k == "term" and data.a[0] == "pack" and data.a[1] != "to_bytes":
            f2, vals = data.a[1], data.a[2]
            o2, c2 = fmt_codes(vm, f2)
            c2 = [c for c in c2 if c[0] != "x"]
            if _struct.calcsize(f2) != _struct.calcsize(a[0]):
                vm.throw("struct.error", "unpack requires a buffer of other size")
            same = [x[0] for x in c2] == [x[0] for x in codes] and (o2 == order or {o2, order} <= {"@", "=", "<"})
            if same:
                return tuple(unpack_value(c, order, v) for c, v in zip(codes, vals))
            return tuple(TERM("misread", a[0], i, data) for i in range(len(codes)))
        if data.k == "id" or data.k == "strc" or (data.k == "term" and data.a[0] in ("pickle", "digest", "encode")):
            vm.throw("struct.error", "unpack requires a buffer of other size")
        if vm.fact(("structok", a[0], data), f"{data!r} has the size of {a[0]!r}") == 1:
            vm.throw("struct.error", "unpack requires a buffer of other size")
        return tuple(TERM("int", "unpack", i, data) if c[0] in INT_RANGES else TERM("item", data, i) for i, c in enumerate(codes))
    vm.throw("TypeError", "a bytes-like object is required")


@model("struct.calcsize")
def _calcsize(vm, a, k):
    return _struct.calcsize(a[0])


@model("struct.Struct")
def _Struct(vm, a, k):
    fmt = a[0]
    o = vm.new(vm.T["SimpleNamespace"])
    o.f["format"] = fmt
    o.f["size"] = _struct.calcsize(fmt)
    o.f["pack"] = Ext("Struct.pack", lambda vm, b, k: _pack_ext.fn(vm, (fmt,) + tuple(b), k))
    o.f["unpack"] = Ext("Struct.unpack", lambda vm, b, k: _unpack_ext.fn(vm, (fmt,) + tuple(b), k))
    return o


_pack_ext = MODELS["struct.pack"]
_unpack_ext = MODELS["struct.unpack"]


# ---------------------------------------------------------------------------- serialisation
@model("pickle.dumps", "cloudpickle.dumps", "dill.dumps", "marshal.dumps")
def _dumps(vm, a, k):
    v = a[0]
    r = vm.world.on_pickle(vm, v) if vm.world is not None else MISSING
    if r is not MISSING:
        return r
    return TERM("pickle", stable(vm, v))


def stable(vm, v):
    """a hashable description of a value, kept by reference for mutable objects"""
    t = type(v)
    if t is Obj:
        if v.cls.payload in ("list",):
            return ("$list",) + tuple(stable(vm, e) for e in v.x)
        if v.cls.payload == "dict":
            return ("$dict",) + tuple((stable(vm, x), stable(vm, y)) for x, y in v.x.items())
        if v.cls.issub(vm.T["BaseException"]):
            return ("$exc", v.cls.uid if not v.cls.builtin else v.cls.name, tuple(stable(vm, e) for e in v.f.get("args", ())))
        return ("$obj", v.cls.uid, tuple((n, stable(vm, e)) for n, e in v.f.items() if not n.startswith("_")))
    if t is tuple:
        return ("$tuple",) + tuple(stable(vm, e) for e in v)
    if t in (VFunc, Bound, Partial, Ext, VClass):
        return ("$fn", getattr(v, "qualname", None) or repr(v))
    if t is EnumMember:
        return ("$enum", v.cls.uid, v.name)
    return v


def unstable(vm, v):
    if type(v) is tuple and v and type(v[0]) is str and v[0].startswith("$"):
        k = v[0]
        if k == "$list":
            return vm.list([unstable(vm, e) for e in v[1:]])
        if k == "$tuple":
            return tuple(unstable(vm, e) for e in v[1:])
        if k == "$dict":
            return vm.dict({unstable(vm, x): unstable(vm, y) for x, y in v[1:]})
        if k == "$exc":
            cls = vm.T.get(v[1])
            if cls is None:
                for c in vm.all_classes:
                    if c.uid == v[1]:
                        cls = c
            if cls is not None:
                return vm.make_exc(cls, *[unstable(vm, e) for e in v[2]])
        return TERM("loads", v)
    return v


@model("pickle.loads", "cloudpickle.loads", "dill.loads", "marshal.loads")
def _loads(vm, a, k):
    v = a[0]
    r = vm.world.on_unpickle(vm, v) if vm.world is not None else MISSING
    if r is not MISSING:
        return r
    if type(v) is Sym and v.k == "term" and v.a[0] == "pickle":
        return unstable(vm, v.a[1])
    if type(v) is bytes:
        vm.throw("EOFError" if not v else "pickle.UnpicklingError", "invalid pickle")
    if type(v) is Sym:
        return TERM("loads", v)
    vm.throw("TypeError", "a bytes-like object is required")


@model("json.dumps")
def _jdumps(vm, a, k):
    return TERM("dumps", json_freeze(vm, a[0], k.get("default"), bool(k.get("skipkeys"))))


def json_key(vm, k, skip):
    """the key as json writes it, MISSING when it is left out"""
    if type(k) is str or type(k) is Sym and sym_type(k) != "bytes":
        return k
    if k is None:
        return "null"
    if type(k) is bool:
        return "true" if k else "false"
    if type(k) in (int, float):
        return repr(k)
    if type(k) is EnumMember and k.cls.issub(vm.T["str"]):
        return k.value
    if skip:
        return MISSING
    vm.throw("TypeError", f"keys must be str, int, float, bool or None, not {vm.type_name(k)}")


def json_freeze(vm, v, default=None, skip=False):
    if v is None or type(v) in (bool, int, float, str) or type(v) is Sym and sym_type(v) != "bytes":
        return v
    if type(v) is tuple:
        return ("$list",) + tuple(json_freeze(vm, e, default, skip) for e in v)
    if type(v) is EnumMember and (v.cls.issub(vm.T["str"]) or v.cls.issub(vm.T["int"])):
        return v.value
    if type(v) is Obj:
        if v.cls.payload == "list" and v.cls.name != "deque":
            return ("$list",) + tuple(json_freeze(vm, e, default, skip) for e in v.x)
        if v.cls.payload == "dict":
            out = []
            for kk, e in v.x.items():
                kk = json_key(vm, kk, skip)
                if kk is not MISSING:
                    out.append((kk, json_freeze(vm, e, default, skip)))
            return ("$dict",) + tuple(out)
        if v.cls.issub(vm.T["tuple"]) and type(v.x) in (list, tuple):
            return ("$list",) + tuple(json_freeze(vm, e, default, skip) for e in v.x)
    if default is not None:
        return json_freeze(vm, vm.call(default, (v,)), default, skip)
    vm.throw("TypeError", f"Object of type {vm.type_name(v)} is not JSON serializable")


@model("json.loads")
def _jloads(vm, a, k):
    v = a[0]
    if type(v) is Sym and v.k == "term" and v.a[0] == "encode":
        v = v.a[1]
    if type(v) is Sym and v.k == "term" and v.a[0] == "dumps":
        return unstable(vm, v.a[1])
    return vm.unk()


@model("hashlib.md5", "hashlib.sha1", "hashlib.sha256", "hashlib.blake2b", "hashlib.sha512", "hashlib.blake2s")
def _md5(vm, a, k):
    o = vm.new(opaque_class(vm, "hashlib.hash"))
    o.f["digest"] = Ext("digest", _digest)
    o.f["$data"] = tuple(a)
    data = a[0] if a else b""
    o.f["digest"] = Ext("digest", lambda vm, b, k: TERM("digest", o.f["$data"]))
    o.f["hexdigest"] = Ext("hexdigest", lambda vm, b, k: TERM("hex", TERM("digest", o.f["$data"])))

    def upd(vm, b, k):
        o.f["$data"] = o.f["$data"] + tuple(b)

    o.f["update"] = Ext("update", upd)
    return o


def _digest(vm, a, k):
    return TERM("digest", a)


@model("hashlib.new")
def _hnew(vm, a, k):
    return MODELS["hashlib.md5"].fn(vm, a[1:], k)


@model("uuid.uuid1", "uuid.uuid4")
def _uuid(vm, a, k):
    r = vm.world.fresh_id(vm) if vm.world is not None else MISSING
    if r is MISSING:
        r = vm.unk("bytes")
    o = vm.new(opaque_class(vm, "uuid.UUID"))
    o.f["bytes"] = r
    o.f["hex"] = TERM("hex", r)
    o.f["int"] = TERM("int", r)
    o.f["$uuid"] = True
    return o


@model("os.urandom", "secrets.token_bytes")
def _urandom(vm, a, k):
    r = vm.world.fresh_id(vm) if vm.world is not None else MISSING
    return vm.unk("bytes") if r is MISSING else r


# ---------------------------------------------------------------------------- os, time, socket
def _clock(name):
    def read(vm, a, k):
        if vm.world is not None:
            return vm.world.clock(vm, name)
        return vm.unk("int" if name.endswith("_ns") else "float")

    return Ext(name, read)


for _n in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
    for _s in ("", "_ns"):
        MODELS[f"time.{_n}{_s}"] = _clock(f"time.{_n}{_s}")

MODELS["os.getpid"] = Ext("os.getpid", lambda vm, a, k: ATOM("+pid", "int"))
MODELS["os.getppid"] = Ext("os.getppid", lambda vm, a, k: ATOM("+ppid", "int"))
MODELS["os.cpu_count"] = Ext("os.cpu_count", lambda vm, a, k: 8)
MODELS["socket.gethostname"] = Ext("gethostname", lambda vm, a, k: "host")
MODELS["tempfile.gettempdir"] = Ext("gettempdir", lambda vm, a, k: "/tmp")
MODELS["os.path.join"] = Ext("os.path.join", lambda vm, a, k: vm.concat_str([x for i, p in enumerate(a) for x in ((["/"] if i else []) + [p])]))
MODELS["os.path.exists"] = Ext("os.path.exists", lambda vm, a, k: vm.choose(2, "path exists") == 0)
MODELS["os.path.expanduser"] = Ext("expanduser", ident)
MODELS["os.path.expandvars"] = Ext("expandvars", ident)
MODELS["platform.uname"] = Ext("uname", lambda vm, a, k: ("Linux", "host", "6", "x", "x86_64", ""))
MODELS["platform.system"] = Ext("system", lambda vm, a, k: "Linux")


@model("os.kill")
def _kill(vm, a, k):
    if a[0] is None:
        vm.throw("TypeError", "an integer is required (got type NoneType)")
    if _emit(vm, "kill", a[0], tuple(a[1:])) == "gone":
        vm.throw("ProcessLookupError", 3, "No such process")


@model("os.remove", "os.unlink")
def _remove(vm, a, k):
    _emit(vm, "remove", None, tuple(a))


@model("os._exit", "os.abort")
def _oexit(vm, a, k):
    _emit(vm, "exit", None, tuple(a))
    raise Cut()


@model("sys.exit")
def _sysexit(vm, a, k):
    vm.throw("SystemExit", *a)


@model("builtins.exit", "builtins.quit")
def _bexit(vm, a, k):
    vm.throw("SystemExit", *a)


@model("gc.collect")
def _collect(vm, a, k):
    _emit(vm, "gc", None, ())
    return 0


@model("uvloop.install")
def _uvloop(vm, a, k):
    _emit(vm, "event_loop", "uvloop", ())


@model("signal.signal")
def _signal(vm, a, k):
    _emit(vm, "signal", a[0], (a[1],))
    return None


# ---------------------------------------------------------------------------- math
def _mathf(name, integral=False):
    def f(vm, a, k):
        v = a[0]
        if type(v) in (int, float, bool):
            import math

            try:
                return getattr(math, name)(*a)
            except (ValueError, OverflowError) as e:
                vm.throw(type(e).__name__, str(e))
        return TERM(name, *a)

    return f


for _n in ("ceil", "floor", "trunc", "sqrt", "log", "log2", "log10", "exp", "fabs", "isnan", "isinf", "isfinite", "pow"):
    MODELS[f"math.{_n}"] = Ext(f"math.{_n}", _mathf(_n))


# ---------------------------------------------------------------------------- copy
@model("copy.copy")
def _copy(vm, a, k):
    v = a[0]
    if type(v) is Obj:
        m = vm.find_method(v, "__copy__")
        if m is not None:
            return vm.call(m, ())
        o = vm.new(v.cls, dict(v.f), v.x.copy() if isinstance(v.x, (list, dict)) else v.x)
        return o
    return v


@model("copy.deepcopy")
def _deepcopy(vm, a, k):
    memo = {}

    def dc(v):
        if type(v) is tuple:
            return tuple(dc(e) for e in v)
        if type(v) is Obj:
            if v in memo:
                return memo[v]
            o = vm.new(v.cls)
            memo[v] = o
            o.f = {n: dc(e) for n, e in v.f.items()}
            if isinstance(v.x, dict):
                o.x = {dc(x): dc(y) for x, y in v.x.items()}
            elif isinstance(v.x, list):
                o.x = [dc(e) for e in v.x]
            else:
                o.x = v.x
            return o
        return v

    return dc(a[0])


def _emit(vm, kind, obj, args):
    for f in reversed(vm.cur.frames if vm.cur is not None else ()):
        if not f.mod.external:
            vm.sites.add((kind, f.code.file, f.line(), f.code.name))
            break
    return vm.world.emit(vm, kind, obj, args)


# ---------------------------------------------------------------------------- primitives of the prelude
@model("__sa__.emit")
def _p_emit(vm, a, k):
    return _emit(vm, a[0], a[1], tuple(a[2:]))


@model("__sa__.suspend")
def _p_suspend(vm, a, k):
    """awaitable that suspends the coroutine: kinds wait, timer, yield"""
    return vm.new(vm.T["$suspend"], None, ["new", a[0], a[1] if len(a) > 1 else None])


@model("__sa__.block")
def _p_block(vm, a, k):
    """the calling thread waits until the object is notified"""
    s = vm.cur
    if s.info == "armed":
        s.info = None
        if s.cancel:
            s.cancel = False
        return None
    if vm.nest:
        raise AnalysisError("blocking call inside a nested call")
    s.info = "armed"
    s.status = "wait"
    s.wait = a[0]
    s.timer = bool(a[1:] and a[1])
    raise Suspend()


@model("time.sleep")
def _sleep(vm, a, k):
    """the calling thread waits for a while"""
    if vm.nest or vm.cur is None:
        return None
    return _p_block(vm, (vm.T["$suspend"], True), {})


@model("__sa__.pause")
def _p_pause(vm, a, k):
    """scheduling point of a thread"""
    s = vm.cur
    if vm.nest or not vm.preempt:
        return None
    if a and vm.shared is not None and type(a[0]) is Obj and a[0] not in vm.shared and a[0].serial <= vm.serial0:
        return None
    if s.info == "paused":
        s.info = None
        return None
    s.info = "paused"
    raise Suspend()


@model("__sa__.notify")
def _p_notify(vm, a, k):
    vm.notify(a[0], a[1] if a[1:] else None)


@model("__sa__.waiting")
def _p_waiting(vm, a, k):
    return sum_int(1 for s in vm.st.strands if s.status == "wait" and s.wait is a[0])


def sum_int(it):
    n = 0
    for v in it:
        n += v
    return n


@model("__sa__.spawn")
def _p_spawn(vm, a, k):
    """start a strand running fn(*args) or a coroutine; returns nothing"""
    name, fn, task, args = a[0], a[1], a[2], tuple(a[3:])
    s = vm.spawn(name if type(name) is str else "strand", task)
    start_strand(vm, s, fn, args)
    return None


def start_strand(vm, s, fn, args=()):
    if type(fn) is Obj and fn.cls.name == "coroutine":
        fr = fn.x
        if fr is None:
            vm.throw("RuntimeError", "cannot reuse already awaited coroutine")
        fr.gen = fn
        fr.mode = None
        fr.stack.append(None)
        fn.f["started"] = True
        fn.f["running"] = True
        s.frames.append(fr)
        return
    r = vm.invoke(fn, args, {})
    if type(r).__name__ == "Frame":
        s.frames.append(r)
    else:
        s.result = r
        s.status = "done"
        i = vm.st.strands.index(s)
        if i in vm.st.ready:
            vm.st.ready.remove(i)
        vm.on_strand_end(s)


@model("__sa__.cancel")
def _p_cancel(vm, a, k):
    """cancel the strand of a task object"""
    for s in vm.st.strands:
        if s.task is a[0] and s.status not in ("done", "dead"):
            s.cancel = True
            if s.status == "wait":
                vm.wake(s)
            return True
    return False


@model("__sa__.choose")
def _p_choose(vm, a, k):
    return vm.choose(a[0], a[1] if a[1:] else "")


@model("__sa__.unk")
def _p_unk(vm, a, k):
    return vm.unk(a[0] if a else "obj")


@model("__sa__.atom")
def _p_atom(vm, a, k):
    return ATOM(a[0], a[1])


@model("__sa__.term")
def _p_term(vm, a, k):
    return TERM(*a)


@model("__sa__.current")
def _p_current(vm, a, k):
    return vm.cur.task if vm.cur is not None else None


@model("__sa__.strand")
def _p_strand(vm, a, k):
    return vm.st.strands.index(vm.cur) if vm.cur in vm.st.strands else -1


@model("__sa__.tasks")
def _p_tasks(vm, a, k):
    return vm.list([s.task for s in vm.st.strands if s.task is not None and s.status not in ("done", "dead")])


@model("__sa__.world")
def _p_world(vm, a, k):
    """value supplied by the environment model"""
    return vm.world.query(vm, a[0], tuple(a[1:]))


@model("__sa__.sigparams")
def _p_sigparams(vm, a, k):
    f = a[0]
    skip = 0
    bound_args = ()
    bound_kw = {}
    while True:
        if type(f) is Bound:
            skip += 1
            f = f.func
        elif type(f) is VClass:
            i = f.lookup("__init__")
            f = i if i is not MISSING else None
            skip += 1
        elif type(f) is Partial:
            skip += len(f.args)
            bound_kw.update(f.kwargs)
            f = f.func
        elif type(f) is VFunc and "__wrapped__" in f.attrs:
            f = f.attrs["__wrapped__"]
        else:
            break
    if type(f) is Sym and vm.world is not None:
        r = vm.world.query(vm, "signature", (f,))
        if r is not None:
            return r
    if type(f) is not VFunc:
        vm.throw("ValueError", "no signature found for builtin")
    co = f.code.co
    names = co.co_varnames
    out = []
    n, p, kw = co.co_argcount, co.co_posonlyargcount, co.co_kwonlyargcount
    for i in range(skip, n):
        j = i - (n - len(f.defaults))
        out.append((names[i], 0 if i < p else 1, j >= 0, f.defaults[j] if j >= 0 else None))
    i = n + kw
    if co.co_flags & 4:
        out.append((names[i], 2, False, None))
        i += 1
    for x in range(n, n + kw):
        out.append((names[x], 3, names[x] in f.kwdefaults, f.kwdefaults.get(names[x])))
    if co.co_flags & 8:
        out.append((names[i], 4, False, None))
    return vm.list(out)


def _lib():
    from . import lib

    return lib


@method("Counter", "most_common")
def _most_common(vm, a, k):
    d = a[0].x
    items = _lib().sort_items(vm, [(n, e) for e, n in d.items()], Ext("key", lambda vm, b, k2: b[0][0]), True)
    out = [(e, n) for n, e in items]
    n = a[1] if a.__len__() > 1 else None
    return vm.list(out if n is None else out[:n])


def _counter_op(o):
    def fn(vm, a, k):
        r = vm.new(vm.T["Counter"], {}, {})
        zero = lambda d, e: d.x.get(e, 0)  # noqa: E731
        b = a[1] if a[1:] else r
        for e in [*a[0].x, *(e for e in b.x if e not in a[0].x)]:
            x, y = zero(a[0], e), zero(b, e)
            if o in "+-":
                n = vm.binary(x, 0 if o == "+" else 10, y)
            else:
                n = x if vm.truth(vm.compare(x, "<" if o == "&" else ">=", y)) else y
            if vm.truth(vm.compare(n, ">", 0)):
                r.x[e] = n
        return r

    return fn


for _n, _o in (("add", "+"), ("sub", "-"), ("and", "&"), ("or", "|"), ("pos", "+")):
    METHODS["Counter"][f"__{_n}__"] = Ext(f"Counter.__{_n}__", _counter_op(_o))


@method("Counter", "subtract")
def _csubtract(vm, a, k):
    for d in (*a[1:], vm.dict(k)):
        items = list(d.x.items()) if type(d) is Obj and d.cls.payload == "dict" else [(e, 1) for e in vm.iterate(d)]
        for e, n in items:
            cur = vm.dict_get(a[0], e)
            vm.dict_set(a[0], e, vm.binary(0 if cur is MISSING else cur, 10, n))


@method("Counter", "total")
def _ctotal(vm, a, k):
    return vm.call(vm.builtins["sum"], (vm.list(list(a[0].x.values())),))


@method("Counter", "elements")
def _celements(vm, a, k):
    return vm.list([e for e, n in a[0].x.items() if type(n) is int for _ in range(n)])
