"""Loading of the analysed program: its sources are parsed and compiled, never imported or executed by the host."""
from __future__ import annotations

import ast
import hashlib
import os

from .values import MISSING, Obj, Sym, VMod, VFunc
from .vm import AnalysisError, Frame, GuestError, VM, get_code

REPO = os.environ.get("SA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
PRELUDE = os.path.join(HERE, "lib")
PACKAGE = "scaled"
STDLIB_SOURCES = {n: n.replace(".", "/") + ".py" for n in ("graphlib", "heapq", "bisect", "asyncio.locks", "asyncio.queues")}


class World:
    """environment of the analysed program; checks override what they need"""

    set_orders = False
    struct_ranges = False
    atom_excludes = {}
    atom_kinds = {}

    def sym_attr(self, vm, o, name):
        return MISSING

    def call_sym(self, vm, f, args, kwargs):
        return MISSING

    def sym_iter(self, vm, v):
        return MISSING

    def sym_subscr(self, vm, o, k):
        return MISSING

    def sym_isinstance(self, vm, v, cls):
        return MISSING

    def sym_type(self, vm, v):
        return MISSING

    def on_setattr(self, vm, o, name, v):
        pass

    def label(self, vm):
        return None

    def force_rel(self, vm, key, op_, bound):
        return None

    def on_rel(self, vm, key, op_, bound):
        pass

    on_known = None            # the same for a comparison whose outcome is already known

    def on_strand_end(self, vm, s):
        pass

    def on_pickle(self, vm, v):
        return MISSING

    def on_unpickle(self, vm, v):
        return MISSING

    def endless(self, vm, where):
        raise RuntimeError("endless: " + where)

    def emit(self, vm, kind, obj, args):
        vm.events.append((kind, obj, args))
        return None

    def query(self, vm, name, args):
        return None

    def fresh_id(self, vm):
        return vm.unk("bytes")

    def clock(self, vm, name):
        """a reading of a clock; the name is that of the function which reads it"""
        vm.st.nunk += 1
        return Sym("unk", vm.st.nunk, "int", 1, name) if name.endswith("_ns") else Sym("unk", vm.st.nunk, "float", None, name)


class Sources:
    """repository sources that were consulted"""

    def __init__(self):
        self.files = {}
        self.trees = {}

    def read(self, path):
        if path not in self.files:
            with open(path, "rb") as f:
                self.files[path] = f.read()
        return self.files[path]

    def tree(self, path):
        t = self.trees.get(path)
        if t is None:
            t = self.trees[path] = ast.parse(self.read(path), path)
        return t

    def digest(self):
        h = hashlib.sha256()
        for p in sorted(self.files):
            h.update(p.encode() + b"\0" + self.files[p])
        return h.hexdigest()


SOURCES = Sources()


def module_path(base, name):
    p = os.path.join(base, *name.split("."))
    if os.path.isfile(p + ".py"):
        return p + ".py"
    if os.path.isfile(os.path.join(p, "__init__.py")):
        return os.path.join(p, "__init__.py")
    return None


def import_module(vm, name, optional=False, prelude_only=False):
    m = vm.modules.get(name)
    if m is not None:
        return m
    top = name.split(".")[0]
    if name in ("_heapq", "_bisect"):
        vm.throw("ImportError", f"No module named {name!r}")
    if top == PACKAGE:
        if prelude_only:
            return None
        path = module_path(REPO, name)
        if path is None and os.path.isdir(os.path.join(REPO, *name.split("."))):
            path = ""
        external = False
    else:
        path = module_path(PRELUDE, name)
        external = True
        if path is None and name in STDLIB_SOURCES:
            import sysconfig

            path = os.path.join(sysconfig.get_paths()["stdlib"], STDLIB_SOURCES[name])
        if path is None and prelude_only:
            return None
        if path is None and "." in name and optional:
            return None
    if path is None and not external:
        if optional:
            return None
        vm.throw("ModuleNotFoundError", f"No module named {name!r}")
    if "." in name:
        import_module(vm, name.rpartition(".")[0])
        if name in vm.modules:
            return vm.modules[name]
    m = VMod(name, external)
    vm.modules[name] = m
    m.file = path
    m.ns["__name__"] = name
    if path:
        src = SOURCES.read(path) if not external else open(path, "rb").read()
        m.ns["__file__"] = path
        m.ns["__package__"] = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        co = compile(src, path, "exec", dont_inherit=True, optimize=0)
        code = get_code(co, path, m)
        fr = Frame(code, m)
        fr.mode = "nested"
        fr.data = []
        fr.ns = m.ns
        try:
            vm.run_nested(fr)
        except GuestError:
            del vm.modules[name]
            raise
    if "." in name and not external:
        vm.modules[name.rpartition(".")[0]].ns.setdefault(name.rpartition(".")[2], m)
    return m


def load_source(vm, name, text):
    """a module of the environment given as source text"""
    m = VMod(name, True)
    vm.modules[name] = m
    m.file = ""
    m.ns["__name__"] = name
    fr = Frame(get_code(compile(text, name, "exec", dont_inherit=True, optimize=0), name, m), m)
    fr.mode = "nested"
    fr.data = []
    fr.ns = m.ns
    vm.run_nested(fr)
    return m


def attribute_stores(tree, counts=None, others=None):
    """attribute names stored outside constructors; counts: those only counted up, others: stored in another way"""
    out = set()
    counts = set() if counts is None else counts
    others = set() if others is None else others
    up = set()

    def walk(n, ctor):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            ctor = n.name in ("__init__", "__post_init__", "__new__")
        if isinstance(n, ast.ClassDef):
            cls.append(n.name)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and not ctor:
            a = n.attr
            if a.startswith("__") and not a.endswith("__") and cls:
                a = "_" + cls[-1].lstrip("_") + a
            out.add(a)
            if id(n) not in up:
                others.add(a)
            else:
                counts.add(a)
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and isinstance(n.target, ast.Attribute):
            up.add(id(n.target))
        for c in ast.iter_child_nodes(n):
            walk(c, ctor)
        if isinstance(n, ast.ClassDef):
            cls.pop()

    cls = []
    walk(tree, False)
    return out


def new_vm(world=None):
    from . import lib, libmods

    vm = VM()
    vm.world = world if world is not None else World()
    lib.setup(vm)
    libmods.setup(vm)
    vm.import_module = lambda name, optional=False, prelude_only=False: import_module(vm, name, optional, prelude_only)
    b = VMod("builtins", True)
    b.ns.update(vm.builtins)
    vm.modules["builtins"] = b
    return vm


def repo_modules():
    out = []
    base = os.path.join(REPO, PACKAGE)
    for d, ds, fs in os.walk(base):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), REPO)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                out.append(rel)
    return out


def load_all(vm, names=None):
    for n in names or repo_modules():
        vm.import_module(n)
    counts, others = set(), set()
    for m in vm.modules.values():
        if not m.external and m.file:
            vm.mutable_attrs |= attribute_stores(SOURCES.tree(m.file), counts, others)
        elif m.file:
            for n in ast.walk(ast.parse(open(m.file).read())):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                    vm.mutable_attrs.add(n.target.attr)
    vm.counters = counts - others
    return vm
