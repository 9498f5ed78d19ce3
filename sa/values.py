"""Abstract values.

Immutable host values (None, bool, int, float, str, bytes, tuple, ...) stand for themselves.  What the analysis does not
know exactly is a `Sym`; mutable objects are `Obj`.  Classes, functions and modules created while the modules of the
program are loaded are static objects that never change afterwards.
"""
from __future__ import annotations


class Sym:
    """Interned symbolic value; kinds:
    id(sort, name)      focus identity (bytes), distinct from every other identity and from constants
    atom(name, type)    named unknown scalar (configuration option, payload, ...)
    lin(items, const)   linear combination of numeric symbols
    term(op, *args)     uninterpreted pure term
    unk(n, type)        anonymous unknown
    strc(parts)         string built from constants and atoms
    """

    __slots__ = ("k", "a", "r")
    table = {}

    def __new__(cls, k, *a):
        key = (k,) + tuple((type(x), x) for x in a)
        s = Sym.table.get(key)
        if s is None:
            s = object.__new__(cls)
            s.k = k
            s.a = a
            s.r = None
            Sym.table[key] = s
        return s

    def __repr__(self):
        if self.r is None:
            if self.k == "id":
                r = f"<{self.a[1]}>"
            elif self.k == "atom":
                r = f"<{self.a[0]}>"
            elif self.k == "lin":
                r = "(" + "+".join(f"{c}*{s!r}" for s, c in self.a[0]) + f"+{self.a[1]})"
            elif self.k == "term":
                r = f"{self.a[0]}({', '.join(map(repr, self.a[1:]))})"
            elif self.k == "strc":
                r = "str" + repr(self.a[0])
            else:
                r = f"?{self.a}"
            self.r = r
        return self.r

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def ID(sort, name):
    return Sym("id", sort, name)


def ATOM(name, type_="obj"):
    return Sym("atom", name, type_)


def TERM(op, *args):
    return Sym("term", op, *args)


class Obj:
    """mutable object"""

    __slots__ = ("cls", "f", "x", "frozen", "serial", "tb")

    def __init__(self, cls, f=None, x=None):
        self.cls = cls
        self.f = f if f is not None else {}
        self.x = x
        self.frozen = False
        self.serial = 0
        self.tb = None

    def __repr__(self):
        return f"<{self.cls.name} {describe(self)}>"


def describe(o, depth=2):
    if depth == 0:
        return "..."
    if type(o) is Obj:
        if o.x is not None and not o.f:
            if isinstance(o.x, dict):
                return "{" + ", ".join(f"{describe(k, depth-1)}: {describe(v, depth-1)}" for k, v in list(o.x.items())[:8]) + "}"
            if isinstance(o.x, list):
                return "[" + ", ".join(describe(v, depth - 1) for v in o.x[:8]) + "]"
            return str(type(o.x).__name__)
        return o.cls.name + "(" + ", ".join(f"{k}={describe(v, depth-1)}" for k, v in list(o.f.items())[:8]) + ")"
    if type(o) is tuple:
        return "(" + ", ".join(describe(v, depth - 1) for v in o[:8]) + ")"
    return repr(o)


class VClass:
    def __init__(self, name, bases, ns, module="builtins", builtin=False):
        self.name = name
        self.bases = tuple(bases)
        self.ns = ns
        self.module = module
        self.builtin = builtin
        self.is_enum = False
        self.members = {}  # enum: name -> EnumMember
        self.dc_fields = None
        self.uid = f"{module}.{name}"
        self.abstract = None
        self.mro = self._mro()
        # kind of payload instances carry
        self.payload = next((c.ns["$payload"] for c in self.mro if "$payload" in c.ns), None)
        self.cache = {}

    def _mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return out
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise TypeError(f"inconsistent MRO for {self.name}")
            out.append(c)
            for s in seqs:
                if s and s[0] is c:
                    del s[0]

    def lookup(self, name):
        for c in self.mro:
            v = c.ns.get(name, MISSING)
            if v is not MISSING:
                return v
        return MISSING

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return f"<class {self.module}.{self.name}>"


class EnumMember:
    __slots__ = ("cls", "name", "value", "index")

    def __init__(self, cls, name, value, index):
        self.cls, self.name, self.value, self.index = cls, name, value, index

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class VFunc:
    __slots__ = ("code", "module", "name", "qualname", "defaults", "kwdefaults", "closure", "attrs", "static", "anns")

    def __init__(self, code, module, qualname, defaults=(), kwdefaults=None, closure=(), anns=None):
        self.code = code
        self.module = module  # VMod
        self.name = code.co.co_name
        self.qualname = qualname
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.closure = closure
        self.attrs = {}
        self.static = False
        self.anns = anns

    def __repr__(self):
        return f"<function {self.qualname}>"


class Ext:
    """library function: fn(vm, args, kwargs) -> value"""

    __slots__ = ("name", "fn", "shared")

    def __init__(self, name, fn, shared=False):
        self.name = name
        self.fn = fn
        self.shared = shared

    def __repr__(self):
        return f"<ext {self.name}>"


class Bound:
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __eq__(self, o):
        return type(o) is Bound and o.func is self.func and o.self is self.self

    def __hash__(self):
        return hash(("Bound", id(self.func), id(self.self)))

    def __repr__(self):
        return f"<bound {self.func!r}>"


class Partial:
    __slots__ = ("func", "args", "kwargs")

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, tuple(args), dict(kwargs)


class Wrapper:
    """staticmethod / classmethod / property / cached_property"""

    __slots__ = ("kind", "func", "setter", "deleter")

    def __init__(self, kind, func, setter=None):
        self.kind, self.func, self.setter, self.deleter = kind, func, setter, None


class VMod:
    def __init__(self, name, external):
        self.name = name
        self.ns = {}
        self.external = external
        self.file = None

    def __repr__(self):
        return f"<module {self.name}>"


class SuperProxy:
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls, self.self = cls, self_


class _Singleton:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


MISSING = _Singleton("MISSING")
NULL = _Singleton("NULL")
NotImpl = _Singleton("NotImplemented")


class TypeAlias:
    """typing construct; carries nothing"""

    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<typing {self.name}>"


# ---------------------------------------------------------------------------- numbers
NUMERIC_OPS = {"mul", "truediv", "floordiv", "mod", "len", "int", "float", "ceil", "floor", "round", "abs", "min", "max",
               "pow", "neg", "f32", "trunc", "reading"}


def sym_type(v):
    if v.k == "id":
        return "bytes"
    if v.k in ("atom", "unk"):
        return v.a[1]
    if v.k == "lin":
        return "num"
    if v.k == "strc":
        return "str"
    op = v.a[0]
    if op in NUMERIC_OPS:
        return "num"
    if op in ("str", "fmt", "hex", "decode", "repr", "dumps"):
        return "str"
    if op in ("pack", "encode", "pickle", "cat", "digest", "slice"):
        return "bytes"
    return "obj"


def is_num(v):
    t = type(v)
    if t is int or t is float or t is bool:
        return True
    if t is Sym:
        return sym_type(v) in ("int", "float", "num")
    return False


def lin_of(v):
    t = type(v)
    if t is bool:
        return {}, int(v)
    if t is int or t is float:
        return {}, v
    if v.k == "lin":
        return dict(v.a[0]), v.a[1]
    return {v: 1}, 0


def mk_lin(items, const):
    items = {s: c for s, c in items.items() if c != 0}
    if not items:
        return const
    if const == 0 and len(items) == 1:
        ((s, c),) = items.items()
        if c == 1:
            return s
    return Sym("lin", tuple(sorted(items.items(), key=lambda p: repr(p[0]))), const)


def lin_add(a, b, sign=1):
    ia, ca = lin_of(a)
    ib, cb = lin_of(b)
    for s, c in ib.items():
        ia[s] = ia.get(s, 0) + sign * c
    return mk_lin(ia, ca + sign * cb)


def lin_scale(a, k):
    ia, ca = lin_of(a)
    return mk_lin({s: c * k for s, c in ia.items()}, ca * k)
