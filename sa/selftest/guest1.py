import asyncio, dataclasses, enum, struct, heapq, collections, functools, graphlib, inspect
from concurrent.futures import Future

def fib(n): return n if n < 2 else fib(n-1)+fib(n-2)
@dataclasses.dataclass
class P:
    a: int
    b: list = dataclasses.field(default_factory=list)
    def m(self, *args, k=3, **kw): return (self.a, args, k, kw)
class E(enum.Enum):
    X = b"x"; Y = b"y"
    @staticmethod
    def names(): return {m.name for m in E}
def gen():
    try:
        for i in range(3):
            r = yield i
            if r: yield r*10
    finally:
        out.append("closed")
out = []
def tests():
    assert fib(10) == 55
    p = P(1); p.b.append(2); assert p == P(1,[2]); assert p.m(1,2,k=4,z=5) == (1,(1,2),4,{"z":5})
    assert E(b"x") is E.X and E.names() == {"X","Y"}
    g = gen(); assert next(g)==0; assert g.send(7)==70; g.close(); assert out==["closed"]
    assert [x for x in gen()] == [0,1,2]
    assert struct.unpack("<IH", struct.pack("<IH", 5, 6)) == (5,6)
    h=[]; heapq.heappush(h,3); heapq.heappush(h,1); assert heapq.heappop(h)==1
    d = collections.defaultdict(set); d["a"].add(1); assert d == {"a":{1}}
    try:
        raise KeyError("x")
    except (ValueError, KeyError) as e:
        assert e.args == ("x",)
    else: assert 0
    try:
        try: 1/0
        finally: out.append("f")
    except ZeroDivisionError: out.append("z")
    assert out[-2:]==["f","z"]
    s = f"{p.a!r:>3}|{'x':<3}|"; assert s=="  1|x  |", s
    a,*b = [1,2,3]; assert b==[2,3]
    assert {**{"a":1}, "b":2} == {"a":1,"b":2}
    assert sorted([3,1,2], key=lambda x:-x)==[3,2,1]
    assert functools.reduce(lambda a,b:a+b,[1,2,3])==6
    ts = graphlib.TopologicalSorter({"b":{"a"}}); ts.prepare(); assert ts.get_ready()==("a",); ts.done("a"); assert ts.get_ready()==("b",)
    assert list(inspect.signature(P.m).parameters)==["self","args","k","kw"]
    match (1,2):
        case (1,x): assert x==2
    assert (lambda *a, **k: (a,k))(*[1], **{"x":2}) == ((1,),{"x":2})
    with open_cm() as c: assert c==5
    assert max([1,5,3])==5 and any([0,1]) and not all([0,1])
    assert "a,b".split(",")==["a","b"] and b"ab".hex()=="6162"
    q = asyncio.Queue(); q.put_nowait(4); assert q.get_nowait()==4
    return "ok"
import contextlib
@contextlib.contextmanager
def open_cm():
    yield 5
log=[]
async def worker(q, l):
    while True:
        x = await q.get()
        async with l:
            await asyncio.sleep(0)
            log.append(x)
        if x is None: return 1
async def main():
    q = asyncio.Queue(); l = asyncio.Lock()
    t = asyncio.create_task(worker(q,l)); t2 = asyncio.create_task(worker(q,l))
    for i in range(3): await q.put(i)
    await q.put(None); await q.put(None)
    r = await asyncio.gather(t,t2)
    async def bad(): raise ValueError("b")
    try:
        await asyncio.gather(bad(), asyncio.sleep(0))
    except ValueError: log.append("caught")
    t3 = asyncio.create_task(worker(q,l)); await asyncio.sleep(0); t3.cancel()
    try: await t3
    except asyncio.CancelledError: log.append("cancelled")
    return r, log
def top():
    return asyncio.run(main())
import threading, queue
def thr():
    q = queue.Queue(); res=[]
    def w():
        while (x:=q.get()) is not None: res.append(x)
    t = threading.Thread(target=w); t.start(); q.put(1); q.put(2); q.put(None); t.join()
    return res
