import asyncio
import contextlib
import threading
import queue
from concurrent.futures import Future, ThreadPoolExecutor

log = []


async def agen():
    for i in range(3):
        await asyncio.sleep(0)
        yield i


class Ctx:
    async def __aenter__(self):
        return 1

    async def __aexit__(self, *a):
        return True


@contextlib.asynccontextmanager
async def acm():
    log.append("a")
    try:
        yield 2
    finally:
        log.append("b")


class AIt:
    def __init__(self):
        self.n = 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        self.n += 1
        if self.n > 2:
            raise StopAsyncIteration
        return self.n


async def sub(x):
    await asyncio.sleep(0)
    if x == 13:
        raise ValueError("13")
    return x * 2


async def forever():
    try:
        while True:
            await asyncio.sleep(0)
    except asyncio.CancelledError:
        log.append("cancelled")
        raise


async def top():
    assert await asyncio.gather(sub(1), sub(2)) == [2, 4]
    r = await asyncio.gather(sub(13), sub(2), return_exceptions=True)
    assert isinstance(r[0], ValueError) and r[1] == 4
    try:
        await asyncio.gather(sub(13), sub(1))
        assert False
    except ValueError:
        pass
    t = asyncio.create_task(sub(3))
    assert await t == 6 and t.done() and t.result() == 6
    t = asyncio.ensure_future(forever())
    await asyncio.sleep(0)
    t.cancel()
    with contextlib.suppress(asyncio.CancelledError):
        await t
    assert log == ["cancelled"] and t.cancelled()
    assert [x async for x in agen()] == [0, 1, 2]
    s = 0
    async for x in AIt():
        s += x
    assert s == 3
    async with Ctx() as c:
        raise ValueError
    async with acm() as c:
        assert c == 2
    assert log[-2:] == ["a", "b"]
    lock = asyncio.Lock()
    async with lock:
        assert lock.locked()
    q = asyncio.Queue()
    await q.put(1)
    q.put_nowait(2)
    assert q.qsize() == 2 and await q.get() == 1 and q.get_nowait() == 2 and q.empty()
    ev = asyncio.Event()
    t = asyncio.create_task(ev.wait())
    await asyncio.sleep(0)
    ev.set()
    assert await t is True
    f = asyncio.get_running_loop().create_future()
    f.set_result(5)
    assert await f == 5
    assert await asyncio.wait_for(sub(1), None) == 2
    done, pending = await asyncio.wait([asyncio.create_task(sub(1)), asyncio.create_task(sub(2))])
    assert len(done) == 2 and not pending
    done, pending = await asyncio.wait([asyncio.create_task(sub(1)), asyncio.create_task(forever())], return_when=asyncio.FIRST_COMPLETED)
    assert len(done) == 1 and len(pending) == 1
    for p in pending:
        p.cancel()
    sem = asyncio.Semaphore(1)
    async with sem:
        pass
    assert await asyncio.shield(sub(2)) == 4
    for fut in asyncio.as_completed([sub(1), sub(2)]):
        assert await fut in (2, 4)
    cond = asyncio.Condition()
    async with cond:
        cond.notify_all()
    async with asyncio.TaskGroup() as tg:
        a = tg.create_task(sub(4))
    assert a.result() == 8
    log.append("end")


async def top2():
    loop = asyncio.get_event_loop()
    loop.call_soon(log.append, "soon")
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    assert log[-1] == "soon"


def thr():
    q = queue.Queue()

    def work():
        q.put(threading.current_thread().name is not None)

    t = threading.Thread(target=work)
    t.start()
    t.join()
    assert q.get() and not t.is_alive()
    f = Future()
    got = []
    f.add_done_callback(lambda f: got.append(f.result()))
    f.set_result(3)
    assert got == [3] and f.result() == 3 and f.done()
    lk = threading.RLock()
    with lk:
        with lk:
            pass
    e = threading.Event()
    e.set()
    assert e.wait(1) and e.is_set()


STRANDS = (top, top2)
THREADS = (thr,)


def tests():
    pass
