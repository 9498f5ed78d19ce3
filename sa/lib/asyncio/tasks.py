from __sa__ import suspend, notify, tasks, current, spawn, block, emit
from asyncio.exceptions import CancelledError, InvalidStateError, TimeoutError
from asyncio.futures import Future, Task, ensure_future

FIRST_COMPLETED, FIRST_EXCEPTION, ALL_COMPLETED = "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"


async def sleep(delay, result=None):
    emit("sleep", None, delay)
    if delay <= 0:
        await suspend("yield")
        return result
    await suspend("timer")
    return result


class _Gather(Future):
    def __init__(self, children, return_exceptions):
        super().__init__()
        self._children = children
        self._return_exceptions = return_exceptions
        for c in children:
            c._outer.append(self)

    def cancel(self, msg=None):
        r = False
        for c in self._children:
            r = c.cancel() or r
        return r

    def done(self):
        return all([c._done for c in self._children])

    async def _wait(self):
        cancelled = False
        while True:
            pending = False
            failed = None
            for c in self._children:
                if not c._done:
                    pending = True
                elif not self._return_exceptions and failed is None:
                    if c._cancelled:
                        failed = CancelledError()
                    elif c._exception is not None:
                        failed = c._exception
            if failed is not None and not cancelled:
                for c in self._children:
                    c._outer.remove(self)
                raise failed
            if not pending:
                break
            try:
                await suspend("wait", self)
            except CancelledError:
                self.cancel()
                cancelled = True
        if cancelled:
            raise CancelledError()
        out = []
        for c in self._children:
            if c._cancelled:
                out.append(CancelledError())
            elif c._exception is not None:
                out.append(c._exception)
            else:
                out.append(c._result)
        return out


def gather(*aws, return_exceptions=False):
    return _Gather([ensure_future(a) for a in aws], return_exceptions)


async def wait_for(fut, timeout):
    if timeout is None:
        return await fut
    fut = ensure_future(fut)
    if fut._done:
        return fut.result()
    if timeout <= 0:
        fut.cancel()
        while not fut._done:
            await suspend("wait", fut)
        if fut._cancelled:
            raise TimeoutError()
        return fut.result()
    try:
        await suspend("timer", fut)
    except CancelledError:
        fut.cancel()
        while not fut._done:
            await suspend("wait", fut)
        raise
    if fut._done:
        return fut.result()
    fut.cancel()
    while not fut._done:
        await suspend("wait", fut)
    if fut._cancelled:
        raise TimeoutError()
    return fut.result()


async def wait(fs, *, timeout=None, return_when=ALL_COMPLETED):
    fs = [ensure_future(f) for f in fs]
    me = Future()
    for f in fs:
        f._outer.append(me)
    fired = False
    while True:
        done = [f for f in fs if f._done]
        if len(done) == len(fs) or fired:
            break
        if return_when == FIRST_COMPLETED and done:
            break
        if return_when == FIRST_EXCEPTION and [f for f in done if f._cancelled or f._exception is not None]:
            break
        n = len(done)
        if timeout is None:
            await suspend("wait", me)
        else:
            await suspend("timer", me)
            fired = len([f for f in fs if f._done]) == n
    for f in fs:
        if me in f._outer:
            f._outer.remove(me)
    return set([f for f in fs if f._done]), set([f for f in fs if not f._done])


def as_completed(fs, *, timeout=None):
    return [ensure_future(f) for f in fs]


def all_tasks(loop=None):
    return set(tasks())


def current_task(loop=None):
    return current()


def shield(arg):
    inner = ensure_future(arg)
    outer = Future()

    def cb(f):
        if outer._done:
            return
        if f._cancelled:
            outer.cancel()
        elif f._exception is not None:
            outer.set_exception(f._exception)
        else:
            outer.set_result(f._result)

    inner.add_done_callback(cb)
    return outer


async def to_thread(fn, *args, **kwargs):
    return fn(*args, **kwargs)


def run_coroutine_threadsafe(coro, loop):
    from concurrent.futures import Future as CFuture
    task = ensure_future(coro)
    cf = CFuture()

    def cb(f):
        if f._cancelled:
            cf.cancel()
        elif f._exception is not None:
            cf.set_exception(f._exception)
        else:
            cf.set_result(f._result)

    task.add_done_callback(cb)
    return cf


class TaskGroup:
    def __init__(self):
        self._tasks = []

    async def __aenter__(self):
        return self

    def create_task(self, coro, *, name=None, context=None):
        t = Task(coro, name=name)
        self._tasks.append(t)
        return t

    async def __aexit__(self, et, ev, tb):
        if ev is not None:
            for t in self._tasks:
                t.cancel()
        err = None
        g = Future()
        for t in self._tasks:
            t._outer.append(g)
        while True:
            pending = [t for t in self._tasks if not t._done]
            if err is None:
                for t in self._tasks:
                    if t._done and not t._cancelled and t._exception is not None:
                        err = t._exception
                        for p in pending:
                            p.cancel()
                        break
            if not pending:
                break
            await suspend("wait", g)
        if err is not None:
            raise err
        return None


class timeout:
    def __init__(self, delay):
        self._delay = delay

    async def __aenter__(self):
        return self

    async def __aexit__(self, et, ev, tb):
        return None
