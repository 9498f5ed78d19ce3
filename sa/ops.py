"""Instruction handlers of the abstract interpreter (CPython 3.12)."""
from __future__ import annotations

from .values import *  # noqa: F401,F403
from .values import lin_add, lin_of, lin_scale, is_num, sym_type
from .vm import (AnalysisError, Code, Cut, Frame, GuestError, MISSING, NULL, Suspend, op, CO_COROUTINE, CO_GENERATOR,
                 CO_ASYNC_GEN)


@op("NOP", "RESUME", "PRECALL", "EXTENDED_ARG", "CACHE", "SETUP_ANNOTATIONS_")
def nop(vm, f, arg, av):
    pass


@op("SETUP_ANNOTATIONS")
def setup_annotations(vm, f, arg, av):
    ns = f.ns if f.ns is not None else f.mod.ns
    if "__annotations__" not in ns:
        ns["__annotations__"] = vm.dict()


@op("POP_TOP", "END_FOR_")
def pop_top(vm, f, arg, av):
    f.stack.pop()


@op("END_FOR")
def end_for(vm, f, arg, av):
    f.stack.pop()
    f.stack.pop()


@op("END_SEND")
def end_send(vm, f, arg, av):
    v = f.stack.pop()
    f.stack[-1] = v


@op("PUSH_NULL")
def push_null(vm, f, arg, av):
    f.stack.append(NULL)


@op("COPY")
def copy(vm, f, arg, av):
    f.stack.append(f.stack[-arg])


@op("SWAP")
def swap(vm, f, arg, av):
    s = f.stack
    s[-1], s[-arg] = s[-arg], s[-1]


@op("LOAD_CONST")
def load_const(vm, f, arg, av):
    if type(av) is frozenset:
        av = vm.const_set(av)
    f.stack.append(av)


@op("LOAD_FAST", "LOAD_FAST_CHECK")
def load_fast(vm, f, arg, av):
    v = f.fast.get(av, MISSING)
    if v is MISSING:
        vm.throw("UnboundLocalError", f"cannot access local variable '{av}' where it is not associated with a value")
    f.stack.append(v)


@op("LOAD_FAST_AND_CLEAR")
def load_fast_and_clear(vm, f, arg, av):
    f.stack.append(f.fast.pop(av, MISSING))


@op("STORE_FAST")
def store_fast(vm, f, arg, av):
    v = f.stack.pop()
    if v is MISSING:
        f.fast.pop(av, None)
    else:
        f.fast[av] = v


@op("DELETE_FAST")
def delete_fast(vm, f, arg, av):
    if av not in f.fast:
        vm.throw("UnboundLocalError", av)
    del f.fast[av]


@op("MAKE_CELL")
def make_cell(vm, f, arg, av):
    f.fast[av] = vm.new(vm.T["cell"], None, [f.fast.get(av, MISSING)])


@op("COPY_FREE_VARS")
def copy_free_vars(vm, f, arg, av):
    pass


@op("LOAD_CLOSURE")
def load_closure(vm, f, arg, av):
    f.stack.append(f.fast[av])


@op("LOAD_DEREF")
def load_deref(vm, f, arg, av):
    c = f.fast[av]
    if c.frozen:
        c = vm.st.thawed.get(c, c)
    v = c.x[0]
    if v is MISSING:
        vm.throw("NameError", f"cannot access free variable '{av}'")
    f.stack.append(vm.thaw(v))


@op("LOAD_FROM_DICT_OR_DEREF")
def load_from_dict_or_deref(vm, f, arg, av):
    ns = f.stack.pop()
    d = ns.x if type(ns) is Obj else ns
    if av in d:
        f.stack.append(d[av])
    else:
        load_deref(vm, f, arg, av)


@op("LOAD_LOCALS")
def load_locals(vm, f, arg, av):
    f.stack.append(vm.new(vm.T["dict"], None, f.ns if f.ns is not None else f.fast))


@op("LOAD_FROM_DICT_OR_GLOBALS")
def load_from_dict_or_globals(vm, f, arg, av):
    ns = f.stack.pop()
    d = ns.x if type(ns) is Obj else ns
    if av in d:
        f.stack.append(d[av])
    else:
        f.stack.append(get_global(vm, f, av))


@op("STORE_DEREF")
def store_deref(vm, f, arg, av):
    c = f.fast[av]
    if c.frozen:
        c = vm.thaw(c)
    c.x[0] = f.stack.pop()


@op("DELETE_DEREF")
def delete_deref(vm, f, arg, av):
    f.fast[av].x[0] = MISSING


def get_global(vm, f, name):
    ov = vm.st.overlay
    if ov:
        v = ov.get((f.mod, name), MISSING)
        if v is not MISSING:
            return v
    v = f.mod.ns.get(name, MISSING)
    if v is not MISSING:
        return vm.thaw(v) if type(v) in (Obj, tuple, Bound) else v
    v = vm.builtins.get(name, MISSING)
    if v is MISSING:
        vm.throw("NameError", f"name '{name}' is not defined")
    return v


@op("LOAD_GLOBAL")
def load_global(vm, f, arg, av):
    if arg & 1:
        f.stack.append(NULL)
    f.stack.append(get_global(vm, f, av))


@op("STORE_GLOBAL")
def store_global(vm, f, arg, av):
    if vm.loading:
        f.mod.ns[av] = f.stack.pop()
    else:
        vm.st.overlay[(f.mod, av)] = f.stack.pop()


@op("DELETE_GLOBAL")
def delete_global(vm, f, arg, av):
    f.mod.ns.pop(av, None)


@op("LOAD_NAME")
def load_name(vm, f, arg, av):
    if f.ns is not None and av in f.ns:
        f.stack.append(f.ns[av])
        return
    f.stack.append(get_global(vm, f, av))


@op("STORE_NAME")
def store_name(vm, f, arg, av):
    (f.ns if f.ns is not None else f.mod.ns)[av] = f.stack.pop()


@op("DELETE_NAME")
def delete_name(vm, f, arg, av):
    (f.ns if f.ns is not None else f.mod.ns).pop(av, None)


@op("LOAD_ATTR")
def load_attr(vm, f, arg, av):
    o = f.stack[-1]
    if vm.preempt:
        if type(o) is Obj and av in vm.mutable_attrs and av in o.f:
            vm.touch(o)
    v = vm.getattr(o, av)
    if arg & 1:
        f.stack[-1] = NULL
        f.stack.append(v)
    else:
        f.stack[-1] = v


@op("STORE_ATTR")
def store_attr(vm, f, arg, av):
    if vm.preempt and av in vm.mutable_attrs:
        vm.touch(f.stack[-1])
    o = f.stack.pop()
    v = f.stack.pop()
    vm.setattr(o, av, v)


@op("DELETE_ATTR")
def delete_attr(vm, f, arg, av):
    vm.delattr(f.stack.pop(), av)


@op("LOAD_SUPER_ATTR")
def load_super_attr(vm, f, arg, av):
    self_ = f.stack.pop()
    cls = f.stack.pop()
    f.stack.pop()
    v = vm.getattr(SuperProxy(cls, self_), av)
    if arg & 1:
        f.stack.append(NULL)
    f.stack.append(v)


@op("LOAD_BUILD_CLASS")
def load_build_class(vm, f, arg, av):
    f.stack.append(vm.build_class)


@op("LOAD_ASSERTION_ERROR")
def load_assertion_error(vm, f, arg, av):
    f.stack.append(vm.T["AssertionError"])


# ------------------------------------------------------------------ building
def popn(f, n):
    if n == 0:
        return []
    r = f.stack[-n:]
    del f.stack[-n:]
    return r


@op("BUILD_TUPLE")
def build_tuple(vm, f, arg, av):
    v = tuple(popn(f, arg))
    f.stack.append(v)


@op("BUILD_LIST")
def build_list(vm, f, arg, av):
    v = popn(f, arg)
    f.stack.append(vm.list(v))


@op("BUILD_SET")
def build_set(vm, f, arg, av):
    v = popn(f, arg)
    f.stack.append(vm.set(v))


@op("BUILD_MAP")
def build_map(vm, f, arg, av):
    v = popn(f, 2 * arg)
    d = vm.dict()
    for i in range(0, len(v), 2):
        vm.dict_set(d, v[i], v[i + 1])
    f.stack.append(d)


@op("BUILD_CONST_KEY_MAP")
def build_const_key_map(vm, f, arg, av):
    keys = f.stack.pop()
    v = popn(f, arg)
    f.stack.append(vm.dict(dict(zip(keys, v))))


@op("BUILD_STRING")
def build_string(vm, f, arg, av):
    v = popn(f, arg)
    f.stack.append(vm.concat_str(v))


@op("FORMAT_VALUE")
def format_value(vm, f, arg, av):
    spec = f.stack.pop() if arg & 4 else ""
    v = f.stack.pop()
    conv = arg & 3
    f.stack.append(vm.format(v, spec, conv))


@op("BUILD_SLICE")
def build_slice(vm, f, arg, av):
    v = popn(f, arg)
    f.stack.append(vm.new(vm.T["slice"], {}, [v[0], v[1], v[2] if len(v) > 2 else None]))


@op("LIST_EXTEND")
def list_extend(vm, f, arg, av):
    v = f.stack.pop()
    l = f.stack[-arg]
    l.x.extend(list(vm.iterate(v)))


@op("SET_UPDATE")
def set_update(vm, f, arg, av):
    v = f.stack.pop()
    s = f.stack[-arg]
    for e in vm.iterate(v):
        vm.dict_set(s, e, True)


@op("DICT_UPDATE", "DICT_MERGE")
def dict_update(vm, f, arg, av):
    v = f.stack.pop()
    d = f.stack[-arg]
    vm.dict_update(d, v)


@op("LIST_APPEND")
def list_append(vm, f, arg, av):
    v = f.stack.pop()
    f.stack[-arg].x.append(v)


@op("SET_ADD")
def set_add(vm, f, arg, av):
    v = f.stack.pop()
    vm.dict_set(f.stack[-arg], v, True)


@op("MAP_ADD")
def map_add(vm, f, arg, av):
    v = f.stack.pop()
    k = f.stack.pop()
    vm.dict_set(f.stack[-arg], k, v)


@op("UNPACK_SEQUENCE")
def unpack_sequence(vm, f, arg, av):
    v = f.stack.pop()
    if type(v) is Sym and sym_type(v) == "obj":
        for i in range(arg - 1, -1, -1):
            f.stack.append(TERM("item", v, i))
        return
    items = list(vm.iterate(v, limit=100000))
    if len(items) != arg:
        if len(items) > arg:
            vm.throw("ValueError", f"too many values to unpack (expected {arg})")
        vm.throw("ValueError", f"not enough values to unpack (expected {arg}, got {len(items)})")
    f.stack.extend(reversed(items))


@op("UNPACK_EX")
def unpack_ex(vm, f, arg, av):
    v = f.stack.pop()
    before, after = arg & 0xFF, arg >> 8
    items = list(vm.iterate(v, limit=100000))
    if len(items) < before + after:
        vm.throw("ValueError", "not enough values to unpack")
    mid = vm.list(items[before:len(items) - after])
    out = items[:before] + [mid] + (items[len(items) - after:] if after else [])
    f.stack.extend(reversed(out))


# ------------------------------------------------------------------ operators
@op("BINARY_OP")
def binary_op(vm, f, arg, av):
    b = f.stack.pop()
    a = f.stack.pop()
    f.stack.append(vm.binary(a, arg, b))


@op("BINARY_SUBSCR")
def binary_subscr(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-2])
    k = f.stack.pop()
    o = f.stack.pop()
    f.stack.append(vm.subscr(o, k))


@op("BINARY_SLICE")
def binary_slice(vm, f, arg, av):
    hi = f.stack.pop()
    lo = f.stack.pop()
    o = f.stack.pop()
    f.stack.append(vm.slice(o, lo, hi, None))


@op("STORE_SLICE")
def store_slice(vm, f, arg, av):
    hi = f.stack.pop()
    lo = f.stack.pop()
    o = f.stack.pop()
    v = f.stack.pop()
    o.x[lo:hi] = list(vm.iterate(v))


@op("STORE_SUBSCR")
def store_subscr(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-2])
    k = f.stack.pop()
    o = f.stack.pop()
    v = f.stack.pop()
    vm.store_subscr(o, k, v)


@op("DELETE_SUBSCR")
def delete_subscr(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-2])
    k = f.stack.pop()
    o = f.stack.pop()
    vm.del_subscr(o, k)


@op("UNARY_NOT")
def unary_not(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-1])
    f.stack.append(not vm.truth(f.stack.pop()))


@op("UNARY_NEGATIVE")
def unary_negative(vm, f, arg, av):
    v = f.stack.pop()
    if type(v) is Sym and is_num(v):
        f.stack.append(lin_scale(v, -1))
    elif type(v) is Obj:
        f.stack.append(vm.call(vm.find_method(v, "__neg__"), ()))
    elif type(v) is Sym:
        f.stack.append(TERM("neg", v))
    else:
        f.stack.append(-v)


@op("UNARY_INVERT")
def unary_invert(vm, f, arg, av):
    v = f.stack.pop()
    f.stack.append(~v if type(v) is int else vm.unk())


@op("COMPARE_OP")
def compare_op(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-2])
    b = f.stack.pop()
    a = f.stack.pop()
    f.stack.append(vm.compare(a, av, b))


@op("IS_OP")
def is_op(vm, f, arg, av):
    b = f.stack.pop()
    a = f.stack.pop()
    f.stack.append(vm.is_same(a, b) != bool(arg))


@op("CONTAINS_OP")
def contains_op(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-1])
    c = f.stack.pop()
    v = f.stack.pop()
    f.stack.append(vm.contains(c, v) != bool(arg))


# ------------------------------------------------------------------ jumps
def backward(vm, f):
    vm.steps += 8
    if vm.steps > vm.budget:
        vm.exhausted(f)


@op("JUMP_FORWARD")
def jump_forward(vm, f, arg, av):
    f.pc = av


@op("JUMP_BACKWARD", "JUMP_BACKWARD_NO_INTERRUPT")
def jump_backward(vm, f, arg, av):
    f.pc = av
    backward(vm, f)


@op("POP_JUMP_IF_FALSE")
def pop_jump_if_false(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-1])
    if not vm.truth(f.stack.pop()):
        f.pc = av


@op("POP_JUMP_IF_TRUE")
def pop_jump_if_true(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-1])
    if vm.truth(f.stack.pop()):
        f.pc = av


@op("POP_JUMP_IF_NONE")
def pop_jump_if_none(vm, f, arg, av):
    if vm.is_same(f.stack.pop(), None):
        f.pc = av


@op("POP_JUMP_IF_NOT_NONE")
def pop_jump_if_not_none(vm, f, arg, av):
    if not vm.is_same(f.stack.pop(), None):
        f.pc = av


@op("GET_ITER")
def get_iter(vm, f, arg, av):
    if vm.preempt:
        vm.touch(f.stack[-1])
    f.stack[-1] = vm.get_iter(f.stack[-1])


@op("GET_YIELD_FROM_ITER")
def get_yield_from_iter(vm, f, arg, av):
    v = f.stack[-1]
    if type(v) is Obj and v.cls.name in ("generator", "coroutine"):
        return
    f.stack[-1] = vm.get_iter(v)


@op("FOR_ITER")
def for_iter(vm, f, arg, av):
    it = f.stack[-1]
    if vm.preempt and type(it.x) is list and it.x[0] in ("list", "keys", "values", "items"):
        vm.touch(it.x[1])
    if it.cls is vm.T["generator"] and it.x is not None and not vm.nest:
        fr = it.x
        if it.f.get("running"):
            vm.throw("ValueError", "generator already executing")
        fr.mode = "iter"
        fr.gen = it
        fr.data = av + 1
        fr.stack.append(None)
        it.f["started"] = True
        it.f["running"] = True
        vm.cur.frames.append(fr)
        return True
    v = vm.iter_next(it)
    if v is MISSING:
        f.stack.pop()
        f.pc = av + 1
    else:
        f.stack.append(v)


# ------------------------------------------------------------------ calls
@op("KW_NAMES")
def kw_names(vm, f, arg, av):
    f.kwn = av


SUPER = None


@op("CALL")
def call(vm, f, arg, av):
    st = f.stack
    n = len(st)
    kwn = f.kwn
    m = st[n - arg - 2]
    args = st[n - arg - 1:]
    if m is NULL:
        func = args.pop(0)
    else:
        func = m
    kwargs = {}
    if kwn:
        k = len(kwn)
        kwargs = dict(zip(kwn, args[len(args) - k:]))
        del args[len(args) - k:]
    if vm.preempt and not vm.nest:
        t = func
        if type(t) is Bound and type(t.func) is Ext and t.func.shared:
            vm.touch(t.self)
        elif type(t) is Ext and t.shared and args:
            vm.touch(args[0])
    if func is vm.super_ext:
        r = do_super(vm, f, args)
    else:
        vm.visited_calls.add((f.code, f.pc))
        r = vm.invoke(func, tuple(args), kwargs)
    f.kwn = ()
    del st[n - arg - 2:]
    if type(r) is Frame:
        enter(vm, r)
        return True
    st.append(r)


def enter(vm, fr):
    frames = vm.cur.frames
    if len(frames) > 220:
        vm.throw("RecursionError", "maximum recursion depth exceeded")
    frames.append(fr)


def do_super(vm, f, args):
    if len(args) == 2:
        return SuperProxy(args[0], args[1])
    cls = f.fast["__class__"].x[0]
    first = f.code.co.co_varnames[0]
    s = f.fast[first]
    if type(s) is Obj and s.cls is vm.T["cell"]:
        s = s.x[0]
    return SuperProxy(cls, s)


@op("CALL_FUNCTION_EX")
def call_function_ex(vm, f, arg, av):
    st = f.stack
    i = len(st) - (4 if arg & 1 else 3)
    kw = st[i + 3] if arg & 1 else None
    a = st[i + 2]
    func = st[i + 1]
    args = tuple(vm.iterate(a)) if type(a) is not tuple else a
    if st[i] is not NULL:
        args = (func,) + args
        func = st[i]
    kwargs = dict(kw.x) if kw is not None else {}
    if vm.preempt and not vm.nest and type(func) is Bound and type(func.func) is Ext and func.func.shared:
        vm.touch(func.self)
    vm.visited_calls.add((f.code, f.pc))
    r = vm.invoke(func, args, kwargs)
    del st[i:]
    if type(r) is Frame:
        enter(vm, r)
        return True
    st.append(r)


@op("MAKE_FUNCTION")
def make_function(vm, f, arg, av):
    code = f.stack.pop()
    closure = f.stack.pop() if arg & 8 else ()
    anns = f.stack.pop() if arg & 4 else None
    kwd = f.stack.pop() if arg & 2 else None
    dfl = f.stack.pop() if arg & 1 else ()
    fn = VFunc(code, f.mod, code.co.co_qualname, dfl, dict(kwd.x) if kwd is not None else None, closure)
    fn.static = vm.loading
    fn.anns = anns
    f.stack.append(fn)


@op("RETURN_VALUE")
def return_value(vm, f, arg, av):
    return vm.do_return(f, f.stack.pop())


@op("RETURN_CONST")
def return_const(vm, f, arg, av):
    return vm.do_return(f, av)


@op("RETURN_GENERATOR")
def return_generator(vm, f, arg, av):
    fl = f.code.co.co_flags
    g = vm.new(vm.T["coroutine" if fl & CO_COROUTINE else "async_generator" if fl & CO_ASYNC_GEN else "generator"])
    fr = Frame(f.code, f.mod, f.fast)
    fr.pc = f.pc
    fr.gen = g
    g.x = fr
    return vm.do_return(f, g)


@op("YIELD_VALUE")
def yield_value(vm, f, arg, av):
    v = f.stack.pop()
    frames = vm.cur.frames
    if f.gen is None:
        raise AnalysisError("yield outside a generator")
    if f.mode == "top" or (len(frames) == 1 and f.mode is None):
        raise AnalysisError("yield at the bottom of a strand")
    frames.pop()
    g = f.gen
    g.x = f
    g.f["running"] = False
    m = f.mode
    if m == "nested":
        f.data[:] = ["yield", v]
        f.data = None
    elif m in ("send", "iter"):
        c = frames[-1]
        if m == "send":
            c.stack[-1] = v
        else:
            c.stack.append(v)
        f.data = None
    else:
        raise AnalysisError(f"yield in mode {m}")
    f.mode = None
    return True


@op("SEND")
def send(vm, f, arg, av):
    recv = f.stack[-2]
    val = f.stack[-1]
    if type(recv) is Obj:
        c = recv.cls.name
        if c in ("coroutine", "generator"):
            fr = recv.x
            if fr is None:
                if recv.f.get("started"):
                    vm.throw("RuntimeError", "cannot reuse already awaited coroutine")
                raise AnalysisError("empty coroutine")
            fr.gen = recv
            fr.mode = "send"
            fr.data = av
            fr.stack.append(val)
            recv.f["started"] = True
            recv.f["running"] = True
            vm.cur.frames.append(fr)
            return True
        if c == "$suspend":
            s = vm.cur
            if recv.x[0] == "armed":
                # resumed
                recv.x[0] = "done"
                if s.cancel:
                    s.cancel = False
                    vm.throw("CancelledError")
                f.stack[-1] = None
                f.pc = av
                return
            if vm.nest:
                raise AnalysisError(f"await inside a nested call at {f.code.file}:{f.line()}")
            if s.cancel:
                s.cancel = False
                vm.throw("CancelledError")
            kind, obj = recv.x[1], recv.x[2]
            recv.x[0] = "armed"
            s.status = "wait" if kind in ("wait", "timer") else "ready"
            s.wait = obj
            s.timer = kind == "timer"
            if kind == "yield":
                vm.st.ready.append(vm.st.strands.index(s))
            raise Suspend()
        if c == "iterator":
            v = vm.iter_next(recv)
            if v is MISSING:
                f.stack[-1] = None
                f.pc = av
            else:
                f.stack[-1] = v
            return
    raise AnalysisError(f"await of {recv!r} at {f.code.file}:{f.line()}")


@op("GET_AWAITABLE")
def get_awaitable(vm, f, arg, av):
    v = f.stack[-1]
    if type(v) is Obj:
        if v.cls.name in ("coroutine", "$suspend"):
            return
        m = v.cls.lookup("__await__")
        if m is not MISSING:
            r = vm.call(Bound(m, v), ())
            if type(r) is Obj and r.cls.name in ("coroutine", "generator", "$suspend", "iterator"):
                f.stack[-1] = r
                return
    if type(v) is Sym and v.k in ("unk", "term"):
        # unknown awaitable of a library: may suspend, yields an unknown value
        f.stack[-1] = vm.new(vm.T["iterator"], None, ["tuple", (), 0])
        return
    vm.throw("TypeError", f"object {vm.type_name(v)} can't be used in 'await' expression")


@op("GET_AITER")
def get_aiter(vm, f, arg, av):
    v = f.stack[-1]
    m = vm.find_method(v, "__aiter__")
    if m is None:
        vm.throw("TypeError", "async for requires __aiter__")
    f.stack[-1] = vm.call(m, ())


@op("GET_ANEXT")
def get_anext(vm, f, arg, av):
    m = vm.find_method(f.stack[-1], "__anext__")
    f.stack.append(vm.call(m, ()))


@op("END_ASYNC_FOR")
def end_async_for(vm, f, arg, av):
    exc = f.stack.pop()
    if exc.cls.issub(vm.T["StopAsyncIteration"]):
        f.stack.pop()
        return
    raise GuestError(exc)


@op("CLEANUP_THROW")
def cleanup_throw(vm, f, arg, av):
    exc = f.stack[-1]
    if exc.cls.issub(vm.T["StopIteration"]):
        del f.stack[-3:]
        f.stack.append(None)
        f.stack.append(exc.f.get("value"))
        return
    raise GuestError(exc)


# ------------------------------------------------------------------ exceptions
@op("PUSH_EXC_INFO")
def push_exc_info(vm, f, arg, av):
    exc = f.stack.pop()
    f.stack.append(vm.cur.exc)
    f.stack.append(exc)
    vm.cur.exc = exc


@op("POP_EXCEPT")
def pop_except(vm, f, arg, av):
    vm.cur.exc = f.stack.pop()


@op("CHECK_EXC_MATCH")
def check_exc_match(vm, f, arg, av):
    cls = f.stack.pop()
    exc = f.stack[-1]
    f.stack.append(vm.exc_match(exc, cls))


@op("RERAISE")
def reraise(vm, f, arg, av):
    exc = f.stack.pop()
    raise GuestError(exc)


@op("RAISE_VARARGS")
def raise_varargs(vm, f, arg, av):
    cause = f.stack.pop() if arg == 2 else MISSING
    if arg == 0:
        exc = vm.cur.exc
        if exc is None:
            vm.throw("RuntimeError", "No active exception to reraise")
        raise GuestError(exc)
    exc = f.stack.pop()
    if type(exc) is VClass:
        exc = vm.call(exc, ())
    if type(exc) is Sym:
        exc = vm.make_exc("Exception", exc)
    if type(exc) is not Obj or not exc.cls.issub(vm.T["BaseException"]):
        vm.throw("TypeError", "exceptions must derive from BaseException")
    if cause is not MISSING:
        exc.f["__cause__"] = cause
    raise GuestError(vm.note(exc))


@op("WITH_EXCEPT_START")
def with_except_start(vm, f, arg, av):
    exc = f.stack[-1]
    ex = f.stack[-4]
    r = vm.invoke(ex, (exc.cls, exc, None), {})
    if type(r) is Frame:
        vm.cur.frames.append(r)
        return True
    f.stack.append(r)


@op("BEFORE_WITH")
def before_with(vm, f, arg, av):
    o = f.stack[-1]
    en = vm.getattr(o, "__enter__")
    ex = vm.getattr(o, "__exit__")
    if vm.preempt and not vm.nest and type(en) is Bound and type(en.func) is Ext and en.func.shared:
        vm.touch(en.self)
    if type(en) is Bound and type(en.func) is VFunc:
        f.stack[-1] = ex
        fr = vm.invoke(en, (), {})
        vm.cur.frames.append(fr)
        return True
    r = vm.call(en, ())
    f.stack[-1] = ex
    f.stack.append(r)


@op("BEFORE_ASYNC_WITH")
def before_async_with(vm, f, arg, av):
    o = f.stack.pop()
    en = vm.getattr(o, "__aenter__")
    ex = vm.getattr(o, "__aexit__")
    f.stack.append(ex)
    f.stack.append(vm.call(en, ()))


# ------------------------------------------------------------------ imports, intrinsics, match
@op("IMPORT_NAME")
def import_name(vm, f, arg, av):
    fromlist = f.stack.pop()
    level = f.stack.pop()
    name = av
    if level:
        pkg = f.mod.ns.get("__package__") or f.mod.name.rpartition(".")[0]
        parts = pkg.split(".")
        parts = parts[: len(parts) - (level - 1)]
        name = ".".join(parts + ([av] if av else []))
    m = vm.import_module(name)
    if not fromlist:
        m = vm.modules[name.split(".")[0]]
    f.stack.append(m)


@op("IMPORT_FROM")
def import_from(vm, f, arg, av):
    m = f.stack[-1]
    try:
        v = vm.getattr(m, av)
    except GuestError:
        v = vm.import_module(m.name + "." + av, optional=True)
        if v is None:
            vm.throw("ImportError", f"cannot import name {av!r} from {m.name!r}")
    f.stack.append(v)


@op("CALL_INTRINSIC_1")
def call_intrinsic_1(vm, f, arg, av):
    if arg == 3:  # STOPITERATION_ERROR
        exc = f.stack[-1]
        if exc.cls.issub(vm.T["StopIteration"]):
            f.stack[-1] = vm.make_exc("RuntimeError", "generator raised StopIteration")
        return
    if arg == 5:  # UNARY_POSITIVE
        m = vm.find_method(f.stack[-1], "__pos__")
        if m is not None:
            f.stack[-1] = vm.call(m, ())
        return
    if arg == 6:  # LIST_TO_TUPLE
        f.stack[-1] = tuple(f.stack[-1].x)
        return
    if arg == 2:  # IMPORT_STAR
        m = f.stack[-1]
        for k, v in list(m.ns.items()):
            if not k.startswith("_"):
                f.mod.ns[k] = v
        f.stack[-1] = None
        return
    if arg in (7, 8, 9, 10, 11):
        f.stack[-1] = TypeAlias("TypeVar")
        return
    if arg == 4:  # ASYNC_GEN_WRAP
        raise AnalysisError("async generator")
    raise AnalysisError(f"intrinsic {arg}")


@op("CALL_INTRINSIC_2")
def call_intrinsic_2(vm, f, arg, av):
    f.stack.pop()


@op("GET_LEN")
def get_len(vm, f, arg, av):
    f.stack.append(vm.len(f.stack[-1]))


@op("MATCH_MAPPING")
def match_mapping(vm, f, arg, av):
    f.stack.append(vm.class_of(f.stack[-1]).payload == "dict")


@op("MATCH_SEQUENCE")
def match_sequence(vm, f, arg, av):
    v = f.stack[-1]
    f.stack.append(vm.class_of(v).payload == "list" or type(v) is tuple)


@op("MATCH_KEYS")
def match_keys(vm, f, arg, av):
    keys = f.stack[-1]
    subj = f.stack[-2]
    out = []
    for k in keys:
        v = vm.dict_get(subj, k)
        if v is MISSING:
            f.stack.append(None)
            return
        out.append(v)
    f.stack.append(tuple(out))


@op("MATCH_CLASS")
def match_class(vm, f, arg, av):
    names = f.stack.pop()
    cls = f.stack.pop()
    subj = f.stack.pop()
    if not vm.isinstance(subj, cls):
        f.stack.append(None)
        return
    pos = []
    if arg:
        ma = cls.lookup("__match_args__")
        if ma is MISSING:
            if arg == 1:
                pos = [subj]
            else:
                vm.throw("TypeError", "match args")
        else:
            pos = [vm.getattr(subj, n) for n in ma[:arg]]
    for n in names:
        v = vm.getattr(subj, n, MISSING_ATTR)
        if v is MISSING_ATTR:
            f.stack.append(None)
            return
        pos.append(v)
    f.stack.append(tuple(pos))


MISSING_ATTR = object()
