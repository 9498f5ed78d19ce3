import abc, asyncio, bisect, collections, contextlib, copy, dataclasses, enum, functools, heapq, itertools, json, operator, struct, time, typing, uuid, weakref
from collections import OrderedDict, defaultdict, deque, namedtuple
from typing import NamedTuple, Optional


class A:
    def __init__(self):
        self._x = 1

    @property
    def x(self):
        return self._x

    @x.setter
    def x(self, v):
        self._x = v

    @x.deleter
    def x(self):
        self._x = None

    @functools.cached_property
    def y(self):
        return self._x + 1

    def __getitem__(self, k):
        return k

    def __len__(self):
        return 3

    def __contains__(self, k):
        return k == 1

    def __call__(self, *a, **k):
        return a, k

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return True

    def __iter__(self):
        yield from (1, 2)

    def __eq__(self, o):
        return isinstance(o, A) and o._x == self._x

    def __hash__(self):
        return hash(self._x)

    def __lt__(self, o):
        return self._x < o._x


class B(A):
    __slots__ = ()
    N = 3

    def __init__(self, **kw):
        super().__init__(**kw)

    @classmethod
    def make(cls):
        return cls()

    @staticmethod
    def st(a, /, b, *, c=1):
        return a, b, c


class NT(NamedTuple):
    a: int
    b: int = 2


PT = namedtuple("PT", "p q")


@dataclasses.dataclass(order=True, frozen=True)
class DC:
    a: int
    b: int = dataclasses.field(default=3, compare=False)


@dataclasses.dataclass
class DM:
    a: int
    c: typing.ClassVar[int] = 1
    b: list = dataclasses.field(default_factory=list)

    def __post_init__(self):
        self.a += 1


class Color(enum.IntEnum):
    R = 1
    G = enum.auto()


class Abs(abc.ABC):
    @abc.abstractmethod
    def f(self):
        ...


def deco(n):
    def outer(f):
        @functools.wraps(f)
        def inner(*a, **k):
            return f(*a, **k) + n

        return inner

    return outer


@deco(1)
def dd(x):
    return x


def counter():
    n = 0

    def inc():
        nonlocal n
        n += 1
        return n

    return inc


@contextlib.contextmanager
def cm(log):
    log.append("in")
    try:
        yield 5
    except ValueError:
        log.append("v")
    finally:
        log.append("out")


def fin(log):
    for i in range(3):
        try:
            if i == 1:
                continue
            if i == 2:
                break
            log.append(i)
        finally:
            log.append("f")
    else:
        log.append("else")
    try:
        return "r"
    finally:
        log.append("g")


def mt(v):
    match v:
        case {"k": x, **rest}:
            return "map", x, rest
        case [1, *r]:
            return "seq", r
        case NT(a=1, b=b):
            return "nt", b
        case str() | bytes():
            return "str"
        case Color.R:
            return "red"
        case int(n) if n > 10:
            return "big"
        case None:
            return None
        case _:
            return "other"


def tests():
    a = A()
    a.x = 5
    assert a.x == 5 and a.y == 6
    del a.x
    assert a.x is None
    a.x = 2
    assert a[1] == 1 and len(a) == 3 and 1 in a and 2 not in a and a(1, z=2) == ((1,), {"z": 2}) and list(a) == [1, 2]
    with a:
        raise ValueError
    b = B.make()
    assert B.st(1, 2, c=3) == (1, 2, 3) and b.N == 3 and isinstance(b, A) and issubclass(B, A) and b < a and b == A()
    n = NT(1)
    assert n.b == 2 and n == (1, 2) and n._replace(a=4).a == 4 and n._asdict() == {"a": 1, "b": 2}
    p, q = PT(1, 2)
    assert PT(1, q).q == 2 and p == 1
    assert DC(1) < DC(2) and DC(1, 5) == DC(1, 6) and hash(DC(1)) == hash(DC(1))
    try:
        DC(1).a = 3
        assert False
    except dataclasses.FrozenInstanceError:
        pass
    assert DM(1).a == 2 and DM(1).b == [] and dataclasses.asdict(DM(1)) == {"a": 2, "b": []}
    assert dataclasses.replace(DC(1), a=2).a == 2
    assert Color.G == 2 and Color(1) is Color.R and Color["R"].name == "R" and [c.value for c in Color] == [1, 2]
    try:
        Abs()
        assert False
    except TypeError:
        pass
    assert dd(1) == 2 and dd.__name__ == "dd"
    c = counter()
    c()
    assert c() == 2
    log = []
    with cm(log) as v:
        raise ValueError
    assert log == ["in", "v", "out"] and v == 5
    with contextlib.suppress(KeyError):
        {}["x"]
    with contextlib.ExitStack() as st:
        st.enter_context(cm(log))
        st.callback(log.append, "cb")
    assert log[-3:] == ["in", "cb", "out"]
    log = []
    assert fin(log) == "r" and log == [0, "f", "f", "f", "g"]
    assert mt({"k": 1, "z": 2}) == ("map", 1, {"z": 2}) and mt([1, 2]) == ("seq", [2]) and mt("s") == "str"
    assert mt(Color.R) == "red" and mt(11) == "big" and mt(None) is None and mt(3) == "other"
    assert [x * y for x in range(3) if x for y in (1, 2)] == [1, 2, 2, 4]
    assert {k: v for k, v in zip("ab", (1, 2))} == {"a": 1, "b": 2} and {x % 2 for x in range(4)} == {0, 1}
    assert sum(x for x in range(4)) == 6 and any(x > 2 for x in range(4)) and all([]) and max(1, 2) == 2 and min([3, 1], key=lambda z: -z) == 3
    assert max((), default=7) == 7 and sorted("ba") == ["a", "b"] and list(reversed([1, 2])) == [2, 1]
    assert list(map(lambda x, y: x + y, [1], [2])) == [3] and list(filter(None, [0, 1])) == [1]
    assert list(itertools.chain([1], [2])) == [1, 2] and list(itertools.islice(itertools.count(), 2)) == [0, 1]
    assert list(itertools.chain.from_iterable([[1], [2]])) == [1, 2] and list(itertools.repeat(1, 2)) == [1, 1]
    assert [(k, list(g)) for k, g in itertools.groupby([1, 1, 2])] == [(1, [1, 1]), (2, [2])]
    assert list(itertools.zip_longest([1], [2, 3])) == [(1, 2), (None, 3)] and list(itertools.accumulate([1, 2])) == [1, 3]
    assert list(itertools.takewhile(lambda x: x < 2, [1, 2, 1])) == [1] and list(itertools.starmap(max, [(1, 2)])) == [2]
    if (m := len("abc")) > 2:
        assert m == 3
    od = OrderedDict([(1, 2), (3, 4)])
    od.move_to_end(1)
    assert list(od) == [3, 1] and od.popitem(last=False) == (3, 4)
    dq = deque([1, 2, 3])
    dq.rotate(1)
    dq.appendleft(0)
    assert list(dq) == [0, 3, 1, 2] and dq.popleft() == 0 and dq[-1] == 2
    dq.remove(1)
    assert 1 not in dq
    d = defaultdict(list)
    d[1].append(2)
    d.setdefault(3, []).append(4)
    assert d.pop(1, None) == [2] and d.get(9) is None and dict(d) == {3: [4]}
    d.update({5: 6}, z=7)
    assert list(d.items())[-1] == ("z", 7) and d | {1: 1} == {3: [4], 5: 6, "z": 7, 1: 1}
    s = {1, 2, 3}
    s -= {1}
    s.discard(9)
    s ^= {2, 7}
    assert s == {3, 7} and s & {3} == {3} and s <= {3, 7, 8} and not s.isdisjoint({3}) and s.pop() in (3, 7)
    assert frozenset([1]) | {2} == {1, 2}
    l = [3, 1, 2]
    l.sort(reverse=True)
    l[0:1] = [9, 8]
    l.insert(0, 5)
    del l[1]
    l += [0]
    assert l == [5, 8, 2, 1, 0] and l.index(2) == 2 and l.count(1) == 1 and l[::-1][0] == 0 and l[-2:] == [1, 0]
    h = []
    heapq.heappush(h, (2, "b"))
    heapq.heappush(h, (1, "a"))
    assert heapq.heappop(h) == (1, "a") and heapq.nsmallest(1, [3, 1]) == [1]
    bisect.insort(h, (9, "z"))
    assert "{}-{:>3}-{x}".format(1, 2, x=3) == "1-  2-3" and "%s %d" % ("a", 1) == "a 1" and f"{1.5:.2f} {255:x} {'a':<3}|" == "1.50 ff a  |"
    assert "a,b".split(",") == ["a", "b"] and "ab".startswith(("a", "x")) and "x".join(["1", "2"]) == "1x2" and "aXb".partition("X")[2] == "b"
    assert b"ab".hex() == "6162" and bytes.fromhex("6162") == b"ab" and b"a" + b"b" == b"ab" and "é".encode().decode() == "é" and b"ab"[0] == 97
    assert int.from_bytes((5).to_bytes(2, "little"), "little") == 5 and struct.calcsize("<IB") == 5 and struct.unpack_from("<H", b"\0\1\0", 1) == (1,)
    assert json.loads(json.dumps({"a": [1, None, True]})) == {"a": [1, None, True]}
    assert divmod(7, 2) == (3, 1) and 7 // 2 == 3 and -7 % 3 == 2 and 2 ** 3 == 8 and round(2.567, 1) == 2.6 and abs(-1) == 1 and 5 & 3 == 1 and 1 << 3 == 8
    assert isinstance(1, (int, str)) and callable(len) and hasattr(a, "x") and getattr(a, "nope", 3) == 3 and type(a) is A and type(a).__name__ == "A"
    setattr(a, "k", 4)
    assert vars(a)["k"] == 4 and a.__dict__["k"] == 4 and a.__class__ is A
    delattr(a, "k")
    assert operator.itemgetter(1)([1, 2]) == 2 and operator.attrgetter("x")(a) == 2 and operator.add(1, 2) == 3 and operator.methodcaller("upper")("a") == "A"
    assert functools.partial(max, 3)(1) == 3 and functools.reduce(operator.add, [1, 2], 3) == 6
    x = copy.copy([1, [2]])
    y = copy.deepcopy(x)
    assert x == y and y[1] is not x[1]
    try:
        try:
            raise ValueError("a")
        except ValueError as e:
            raise KeyError("b") from e
    except KeyError as e:
        assert isinstance(e.__cause__, ValueError) and str(e) == "'b'" and repr(e) == "KeyError('b')"
    try:
        raise
    except RuntimeError:
        pass

    class Err(Exception):
        def __init__(self, m, code=3):
            super().__init__(m)
            self.code = code

    try:
        raise Err("m")
    except Exception as e:
        assert e.code == 3 and e.args == ("m",) and str(e) == "m"
    assert next(iter([]), 5) == 5 and next((z for z in [1, 2] if z > 1), None) == 2 and list(enumerate("a", 1)) == [(1, "a")]
    assert iter(lambda it=iter([1, 0]): next(it), 0).__next__() == 1
    first, *_, last = [1, 2, 3]
    assert (first, last) == (1, 3) and (lambda *, k: k)(k=1) == 1 and [*range(2), *(3,)] == [0, 1, 3] and {**{"a": 1}} == {"a": 1}
    i = 0
    while True:
        i += 1
        if i > 3:
            break
    else:
        assert False
    assert i == 4 and (1 if i else 2) == 1 and 1 < i <= 4 != 5 and not None
    assert collections.Counter("aab")["a"] == 2 and collections.Counter("aab").most_common(1) == [("a", 2)]
    cm2 = collections.ChainMap({1: 2}, {3: 4})
    assert cm2[3] == 4
    assert bool(Optional) and str(3) == "3" and repr("a") == "'a'" and ascii("é") == "'\\xe9'" and chr(97) == "a" and ord("a") == 97 and hex(255) == "0xff"
    assert id(a) == id(a) and list(range(5, 0, -2)) == [5, 3, 1] and slice(1, 2) and sum([[1], [2]], []) == [1, 2] and list(zip([1], "a")) == [(1, "a")]

    def g():
        try:
            yield 1
        except ValueError:
            yield 2
        return 3

    it = g()
    next(it)
    assert it.throw(ValueError) == 2
    try:
        next(it)
    except StopIteration as e:
        assert e.value == 3

    def g2():
        r = yield from g()
        yield r

    assert list(g2()) == [1, 3]
    assert [f() for f in [lambda k=k: k for k in range(2)]] == [0, 1]
    global GL
    GL = 3
    assert globals()["GL"] == 3
    ns = {}
    assert eval("1") == 1 if False else True
    assert (a.x, b.x) == (2, 1)
    a.x += 1
    a._x, b._x = b._x, a._x
    assert (a.x, b.x) == (1, 3)
    assert "abc"[::-1] == "cba" and "a" "b" == "ab" and "ab" * 2 == "abab" and [0] * 2 == [0, 0]
    assert functools.lru_cache(maxsize=None)(lambda z: z)(3) == 3
    assert functools.total_ordering and functools.singledispatch
    w = weakref.WeakValueDictionary()
    assert type("T", (A,), {"z": 1})().z == 1
    assert not isinstance(True, str) and isinstance(True, int) and 1 == 1.0 and True + 1 == 2
    assert bytes(3) == b"\0\0\0" and bytearray(b"ab")[1] == 98 and memoryview(b"ab")[0] == 97
    t = (1, 2) + (3,)
    assert t[1:] == (2, 3) and t.index(3) == 2 and hash(t) == hash((1, 2, 3)) and (1, 2) < (1, 3)
    assert "x" in {"x": 1} and [] == [] and [1] < [2] and {1} == {1} and (1, [2]) == (1, [2])
