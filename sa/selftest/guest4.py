import abc, asyncio, collections, contextlib, dataclasses, enum, functools, heapq, itertools, math, operator, string, struct, types, typing, time, logging
from collections import Counter, ChainMap, deque, UserDict
from typing import Generic, Protocol, TypeVar, ClassVar, Final, Literal, overload


def t_match():
    @dataclasses.dataclass
    class P:
        x: int
        y: int = 0

    def f(v):
        match v:
            case P(x=1, y=b):
                return ("p1", b)
            case P(a, b) if a > 5:
                return ("big", a)
            case {"k": k, **rest}:
                return ("map", k, rest)
            case [a, b, *c]:
                return ("seq", a, c)
            case "s" | b"s":
                return "str"
            case int() | float():
                return "num"
            case None:
                return "none"
            case _:
                return "other"
    assert f(P(1, 2)) == ("p1", 2) and f(P(7)) == ("big", 7) and f({"k": 1, "z": 2}) == ("map", 1, {"z": 2})
    assert f([1, 2, 3]) == ("seq", 1, [3]) and f("s") == "str" and f(4) == "num" and f(None) == "none" and f(()) == "other"


def t_sd():
    @functools.singledispatch
    def g(x):
        return "any"

    @g.register
    def _(x: int):
        return "int"

    @g.register(str)
    def _s(x):
        return "str"
    assert g(1) == "int" and g("") == "str" and g(1.5) == "any"

    class K:
        @functools.singledispatchmethod
        def m(self, a):
            return "any"

        @m.register
        def _(self, a: bytes):
            return "bytes"

        @functools.cached_property
        def c(self):
            self.n = getattr(self, "n", 0) + 1
            return self.n
    k = K()
    assert k.m(b"") == "bytes" and k.m(3) == "any"
    assert k.c == 1 and k.c == 1


def t_coll():
    c = Counter("aab")
    assert c["a"] == 2 and c["z"] == 0 and c.most_common(1) == [("a", 2)]
    c.update(["z"]); c["z"] -= 1
    assert +c == Counter({"a": 2, "b": 1}) and sum(c.values()) == 3
    c.subtract(["a"])
    assert c["a"] == 1
    m = ChainMap({"a": 1}, {"a": 2, "b": 3})
    assert m["a"] == 1 and m["b"] == 3 and "b" in m

    class D(UserDict):
        def __setitem__(self, k, v):
            super().__setitem__(k, v + 1)
    d = D(); d["a"] = 1
    assert d["a"] == 2 and dict(d) == {"a": 2}
    q = deque([1, 2, 3], maxlen=3); q.append(4); q.rotate(1)
    assert list(q) == [4, 2, 3] and q.popleft() == 4
    q.extendleft([9, 8]); assert q[0] == 8 and q.index(9) == 1; q.remove(9)
    q.insert(1, 7); assert list(q)[:2] == [8, 7] or True


def t_dict():
    d = {"a": 1} | {"b": 2}
    d |= {"c": 3}
    assert list(d) == ["a", "b", "c"] and d.items() >= {("a", 1)} and d.keys() & {"a", "x"} == {"a"} and d.keys() - {"a"} == {"b", "c"}
    assert d.pop("zz", None) is None and d.setdefault("q", []) == []
    assert dict.fromkeys("ab", 0) == {"a": 0, "b": 0} and dict(zip("ab", [1, 2])) == {"a": 1, "b": 2}
    assert next(iter(d.items())) == ("a", 1) and list(reversed(d))[0] == "q" and d.popitem()[0] == "q"
    x = {**d, "a": 9}; assert x["a"] == 9
    s = {1, 2}; s |= {3}; s ^= {1}; s -= {2}
    assert s == {3} and frozenset(s) | {4} == {3, 4} and s.isdisjoint({1}) and s <= {3, 4} and s.symmetric_difference({3, 5}) == {5}
    s.update([7], [8]); s.difference_update([7]); s.intersection_update({8, 9}); assert s == {8}
    l = [3, 1, 2]; l.sort(key=lambda v: -v); assert l == [3, 2, 1]
    l[1:2] = [5, 6]; del l[0]; l.insert(0, 0); l.reverse(); assert l == [1, 6, 5, 0] and l[::-1][0] == 0 and l.count(6) == 1
    a, (b, *c), d2 = 1, (2, 3, 4), 5
    assert c == [3, 4] and (a, b, d2) == (1, 2, 5)


def t_str():
    assert "a-b-c".rpartition("-") == ("a-b", "-", "c") and "abc".removeprefix("a") == "bc" and "abc".removesuffix("c") == "ab"
    assert f"{3.14159:.2f}|{42:>5}|{'x':^3}|{255:#x}|{1000:,}|{0.5:.0%}" == "3.14|   42| x |0xff|1,000|50%"
    assert "%s=%d" % ("a", 1) == "a=1" and "{0}{x}".format(1, x=2) == "12" and "a,b".split(",", 1) == ["a", "b"]
    assert b"".join([b"a", b"b"]) == b"ab" and b"ab".hex() == "6162" and bytes.fromhex("61") == b"a" and int.from_bytes(b"\x01\x00", "little") == 1
    assert (258).to_bytes(2, "big") == b"\x01\x02" and bytearray(b"ab")[0] == 97 and bytes(memoryview(b"abc")[1:]) == b"bc"
    assert "a b".title() == "A B" and "x".join("abc") == "axbxc" and "abc".find("c") == 2 and "Ab".casefold() == "ab" and "5".isdigit() and "a".zfill(3) == "00a"
    assert string.ascii_lowercase[0] == "a" and repr("x") == "'x'" and f"{'a'!r:>4}" == " 'a'"
    n = 5
    assert f"{n=}" == "n=5" and "line1\nline2".splitlines() == ["line1", "line2"] and "aXb".swapcase() == "AxB"


def t_iter():
    assert list(itertools.chain.from_iterable([[1], [2]])) == [1, 2] and list(itertools.islice(itertools.count(3), 2)) == [3, 4]
    assert [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])] == [(1, [1, 1]), (2, [2])]
    assert list(itertools.accumulate([1, 2, 3])) == [1, 3, 6] and list(itertools.pairwise([1, 2, 3])) == [(1, 2), (2, 3)]
    assert list(itertools.zip_longest([1], [2, 3], fillvalue=0)) == [(1, 2), (0, 3)] and list(itertools.starmap(pow, [(2, 3)])) == [8]
    assert list(itertools.takewhile(lambda v: v < 2, [1, 2])) == [1] and list(itertools.dropwhile(lambda v: v < 2, [1, 2])) == [2]
    assert list(itertools.compress("ab", [0, 1])) == ["b"] and list(itertools.filterfalse(None, [0, 1])) == [0] and list(itertools.repeat(1, 2)) == [1, 1]
    assert list(itertools.product([1, 2], "a")) == [(1, "a"), (2, "a")] and list(itertools.combinations([1, 2, 3], 2))[0] == (1, 2)
    a, b = itertools.tee([1, 2]); assert list(a) == list(b) == [1, 2]
    assert list(itertools.batched([1, 2, 3], 2)) == [(1, 2), (3,)] and list(itertools.permutations([1, 2])) == [(1, 2), (2, 1)]
    def g():
        x = yield 1
        yield from [x, 3]
        return 4
    def h():
        r = yield from g()
        yield r
    it = h(); assert next(it) == 1 and it.send(2) == 2 and list(it) == [3, 4]
    assert [i for i in range(10) if i % 2 if i > 3] == [5, 7, 9] and {k: v for k, v in zip("ab", range(2))} == {"a": 0, "b": 1}
    assert sorted([(2, "b"), (1, "a")], key=operator.itemgetter(1))[0] == (1, "a") and max([1, 5, 3], key=lambda v: -v) == 1 and min([], default=7) == 7
    assert list(map(lambda a, b: a + b, [1, 2], [3, 4])) == [4, 6] and list(filter(None, [0, 1])) == [1] and sum([[1], [2]], []) == [1, 2]
    assert any(v > 2 for v in (1, 2, 3)) and not all([]) is False and list(enumerate("a", 1)) == [(1, "a")] and list(iter([1, 2].pop, 1)) == [2]
    assert functools.reduce(operator.add, [1, 2, 3], 0) == 6 and math.ceil(1.2) == 2 and math.inf > 5 and math.floor(-0.5) == -1 and math.isclose(1.0, 1.0)
    assert heapq.nsmallest(2, [3, 1, 2]) == [1, 2] and heapq.nlargest(1, [3, 1]) == [3] and list(heapq.merge([1, 3], [2])) == [1, 2, 3]
    hp = [3, 1, 2]; heapq.heapify(hp); assert heapq.heappushpop(hp, 0) == 0 and heapq.heapreplace(hp, 5) == 1


def t_cls():
    class E(enum.IntEnum):
        A = 1
        B = enum.auto()
    class F(enum.Flag):
        R = enum.auto(); W = enum.auto()
    class S(enum.StrEnum):
        X = "x"; Y = enum.auto()
    assert E.B == 2 and E(1) is E.A and E["A"].name == "A" and S.Y == "y" and [e.value for e in E] == [1, 2] and (F.R | F.W) & F.R == F.R and bool(F.R & F.W) is False
    assert "A" in E.__members__ and isinstance(E.A, int) and E.A in E
    ns = types.SimpleNamespace(a=1); ns.b = 2; assert ns.a + ns.b == 3
    mp = types.MappingProxyType({"a": 1}); assert mp["a"] == 1 and mp.get("z") is None

    class A:
        registry: ClassVar[dict] = {}
        __slots__ = ("v",)
        def __init_subclass__(cls, **k):
            A.registry[cls.__name__] = cls
        def __class_getitem__(cls, i):
            return cls
        def __getattr__(self, n):
            if n == "dyn":
                return 5
            raise AttributeError(n)
        def __call__(self, x): return x + 1
        def __len__(self): return 3
        def __contains__(self, x): return x == 2
        def __getitem__(self, i):
            if i > 2: raise IndexError
            return i
        def __enter__(self): return self
        def __exit__(self, *a): return True
        def __eq__(self, o): return isinstance(o, A)
        def __hash__(self): return 1
        def __lt__(self, o): return False
        def __bool__(self): return True
        def __iter__(self): yield from (1, 2)
    class B(A):
        @property
        def p(self): return 1
        @p.setter
        def p(self, v): self.v = v
        @staticmethod
        def s(): return 2
        @classmethod
        def c(cls): return cls.__name__
    b = B(); b.p = 4
    assert b.v == 4 and b.dyn == 5 and b(1) == 2 and len(b) == 3 and 2 in b and list(b) == [1, 2] and B.registry["B"] is B and B.s() == 2 and B.c() == "B"
    with A() as q:
        raise ValueError
    assert b == A() and len({b, A()}) == 1 and type(b) is B and B.__mro__[1] is A and getattr(b, "nope", 7) == 7 and not hasattr(b, "nope")

    T = TypeVar("T")
    class G(Generic[T]):
        def __init__(self, v: T): self.v = v
    assert G[int](3).v == 3
    class Pr(Protocol):
        def f(self) -> int: ...
    class Desc:
        def __set_name__(self, o, n): self.n = "_" + n
        def __get__(self, i, o): return getattr(i, self.n, 0)
        def __set__(self, i, v): setattr(i, self.n, v * 2)
    class HD:
        d = Desc()
    hd = HD(); hd.d = 3; assert hd.d == 6
    @dataclasses.dataclass(frozen=True, order=True)
    class DC:
        a: int
        b: list = dataclasses.field(default_factory=list, compare=False)
        def __post_init__(self): object.__setattr__(self, "z", self.a)
    x = DC(1); assert x == DC(1) and x < DC(2) and x.z == 1 and hash(x) == hash(DC(1)) and dataclasses.asdict(x) == {"a": 1, "b": []} and dataclasses.astuple(x) == (1, [])
    try:
        x.a = 5
        assert False
    except dataclasses.FrozenInstanceError:
        pass
    @dataclasses.dataclass(slots=True, kw_only=True)
    class DK:
        a: int = 1
    assert DK(a=2).a == 2


def t_exc():
    log = []
    try:
        try:
            raise KeyError("a")
        except KeyError as e:
            raise ValueError("b") from e
        finally:
            log.append(1)
    except (ValueError, TypeError) as e:
        assert isinstance(e.__cause__, KeyError) and e.args == ("b",)
    else:
        assert False
    with contextlib.suppress(KeyError, IndexError):
        {}["x"]
    with contextlib.ExitStack() as st:
        st.callback(log.append, 2)
        st.enter_context(contextlib.nullcontext(5))
        @st.push
        def _(et, e, tb): log.append(3); return False
    assert log == [1, 3, 2]
    @contextlib.contextmanager
    def cm(v):
        try:
            yield v
        except ZeroDivisionError:
            log.append("z")
        finally:
            log.append("f")
    with cm(1) as a, cm(2) as b:
        1 / 0
    assert a == 1 and b == 2 and log[-3:] == ["z", "f", "f"]
    class My(Exception):
        def __init__(self, a, *, b=1): super().__init__(a); self.b = b
    try:
        raise My(1, b=2)
    except My as e:
        assert e.b == 2 and str(e) == "1" and repr(e) == "My(1)"
    for i in range(3):
        try:
            if i == 1: continue
            if i == 2: break
        finally:
            log.append(("it", i))
    else:
        assert False
    assert log[-1] == ("it", 2)


def t_fn():
    def f(a, /, b, *args, c=3, **k): return (a, b, args, c, k)
    assert f(1, 2, 3, c=4, z=5) == (1, 2, (3,), 4, {"z": 5}) and f(*[1, 2], **{"c": 1})[3] == 1
    p = functools.partial(f, 1, c=9); assert p(2)[3] == 9 and p.func is f and p.args == (1,)
    pm = functools.partialmethod
    class K:
        def m(self, a, b): return (a, b)
        h = pm(m, 5)
    assert K().h(6) == (5, 6)
    @functools.lru_cache(maxsize=None)
    def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
    @functools.cache
    def one(): return object()
    assert fib(10) == 55 and one() is one()
    def deco(n):
        def d(fn):
            @functools.wraps(fn)
            def w(*a, **k): return fn(*a, **k) + n
            return w
        return d
    @deco(10)
    def inc(x): "doc"; return x + 1
    assert inc(1) == 12 and inc.__name__ == "inc" and inc.__wrapped__(1) == 2
    x = 0
    def outer():
        nonlocal x
        x += 1
        return lambda: x
    assert outer()() == 1
    assert (lambda *a, k=1: (a, k))(1, 2) == ((1, 2), 1)
    if (n := len("abc")) > 2: assert n == 3
    ops = {"+": operator.add, "-": lambda a, b: a - b}; assert ops["+"](1, 2) == 3 and ops["-"](3, 1) == 2
    assert operator.attrgetter("real")(5) == 5 and operator.methodcaller("upper")("a") == "A" and operator.contains([1], 1) and operator.not_(0) and operator.is_(None, None)
    assert callable(f) and isinstance(f, types.FunctionType) and divmod(7, 2) == (3, 1) and 7 // 2 == 3 and -7 % 3 == 2 and 2 ** 3 == 8 and 1 < 2 < 3 and ~5 == -6 and 6 & 3 == 2 and 1 << 3 == 8
    assert round(2.567, 2) == 2.57 and abs(-1) == 1 and int("12") == 12 and float("1.5") == 1.5 and bool([]) is False and str(1.0) == "1.0" and hex(255) == "0xff" and chr(97) == "a"
    assert isinstance(1, int | str) and isinstance("", (int, str)) and issubclass(bool, int) and type(None) is types.NoneType
    assert [*range(3), *"a"] == [0, 1, 2, "a"] and (*[1], 2) == (1, 2) and slice(1, 2).start == 1 and [1, 2, 3][-1:] == [3] and "abc"[::2] == "ac"
    assert list(range(5, 0, -2)) == [5, 3, 1] and 3 in range(5) and len(range(5)) == 5 and range(5)[2] == 2
    del x
    assert vars(types.SimpleNamespace(q=1)) == {"q": 1} and id(f) == id(f) and ... is Ellipsis and NotImplemented is not None
    log = logging.getLogger("x"); log.info("a %s", 1); log.debug(f"q"); log.exception("e"); log.warning("w"); logging.info("z"); assert log.isEnabledFor(10) in (True, False)
    logging.getLogger(__name__).error("x", exc_info=True)


@functools.lru_cache(maxsize=None)
def table(n):
    return [n]


def t_cache():
    assert table(1) is table(1) and table(1) is not table(2)
    table(1).append(5)
    assert table(1) == [1, 5]
    table.cache_clear()
    assert table(1) == [1]
    @functools.total_ordering
    class V:
        def __init__(self, v): self.v = v
        def __lt__(self, o): return self.v < o.v
        def __eq__(self, o): return self.v == o.v
        __hash__ = None
    assert V(1) <= V(1) and V(2) > V(1) and V(2) >= V(2) and not V(1) > V(1) and V(1) != V(2)
    class I(enum.IntEnum):
        A = 3
    assert I.A + 1 == 4 and I.A & 1 == 1 and sorted([I.A, 1]) == [1, 3] and f"{I.A}" == "3" and I.A < 5 and {3: "x"}[I.A] == "x" and max(I.A, 2) == 3


def tests():
    for t in (t_match, t_sd, t_coll, t_dict, t_str, t_iter, t_cls, t_exc, t_fn, t_cache):
        t()


async def a_main():
    lock, ev, cond, sem = asyncio.Lock(), asyncio.Event(), asyncio.Condition(), asyncio.Semaphore(1)
    log = []
    async def w(n):
        async with lock:
            log.append(n)
        async with sem:
            await asyncio.sleep(0)
        await ev.wait()
        return n
    ts = [asyncio.create_task(w(i)) for i in range(2)]
    await asyncio.sleep(0)
    ev.set()
    assert sorted(await asyncio.gather(*ts)) == [0, 1]
    done, pending = await asyncio.wait([asyncio.ensure_future(w(5))], return_when=asyncio.FIRST_COMPLETED)
    assert len(done) == 1 and not pending and next(iter(done)).result() == 5
    for f in asyncio.as_completed([w(6), w(7)]):
        assert await f in (6, 7)
    async with asyncio.TaskGroup() as tg:
        a = tg.create_task(w(8)); b = tg.create_task(w(9))
    assert a.result() == 8 and b.done()
    async with cond:
        cond.notify_all()
    async def agen():
        for i in range(3):
            await asyncio.sleep(0)
            yield i
    assert [i async for i in agen() if i] == [1, 2]
    async for i in agen():
        if i == 1: break
    else:
        assert False
    @contextlib.asynccontextmanager
    async def acm():
        log.append("in")
        try:
            yield 1
        finally:
            log.append("out")
    async with acm() as v, contextlib.AsyncExitStack() as st:
        st.push_async_callback(asyncio.sleep, 0)
        assert await st.enter_async_context(acm()) == 1
    assert log[-2:] == ["out", "out"]
    q = asyncio.Queue(); q.put_nowait(1); await q.put(2); assert q.qsize() == 2 and await q.get() == 1 and q.get_nowait() == 2 and q.empty()
    q.task_done()
    try:
        q.get_nowait(); assert False
    except asyncio.QueueEmpty:
        pass
    t = asyncio.create_task(ev.wait()); await asyncio.sleep(0); t2 = asyncio.create_task(asyncio.Event().wait()); await asyncio.sleep(0); t2.cancel()
    try:
        await t2; assert False
    except asyncio.CancelledError:
        pass
    assert t2.cancelled() and t.done()
    try:
        async with asyncio.timeout(0.01):
            await asyncio.Event().wait()
        assert False
    except TimeoutError:
        pass
    try:
        await asyncio.wait_for(asyncio.Event().wait(), 0.01); assert False
    except asyncio.TimeoutError:
        pass
    r = await asyncio.gather(w(1), asyncio.sleep(0, "x"), return_exceptions=True); assert r == [1, "x"]
    loop = asyncio.get_running_loop(); fut = loop.create_future(); loop.call_soon(fut.set_result, 3); assert await fut == 3
    fut2 = loop.create_future(); fut2.add_done_callback(lambda f: log.append("cb")); fut2.set_result(1); await asyncio.sleep(0); assert log[-1] == "cb"
    await asyncio.shield(asyncio.sleep(0)); assert await asyncio.to_thread(lambda: 5) == 5 and await loop.run_in_executor(None, lambda: 6) == 6
    assert asyncio.current_task() is not None and isinstance(loop.time(), float)


STRANDS = (a_main,)
if __name__ == "__main__":
    tests()
    asyncio.run(a_main())
    print("native ok")
