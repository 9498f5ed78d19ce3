from __sa__ import block, emit, spawn, tasks, current, world
from asyncio.futures import Future, Task, ensure_future


class _Handle:
    def __init__(self):
        self._cancelled = False

    def cancel(self):
        self._cancelled = True

    def cancelled(self):
        return self._cancelled


def _run_handle(handle, cb, args):
    if not handle._cancelled:
        cb(*args)


async def _run_later(handle, cb, args):
    from __sa__ import suspend
    await suspend("timer", None)
    if not handle._cancelled:
        cb(*args)


class AbstractEventLoopPolicy:
    pass


class AbstractEventLoop:
    def __init__(self):
        self._handlers = {}
        self._closed = False
        self._debug = False

    def create_future(self):
        return Future()

    def create_task(self, coro, *, name=None, context=None):
        return Task(coro, name=name)

    def run_until_complete(self, future):
        task = ensure_future(future)
        while not task._done:
            block(task)
        return task.result()

    def run_forever(self):
        while not self._stopped:
            block(self)

    def stop(self):
        from __sa__ import notify
        self._stopped = True
        notify(self)

    def close(self):
        self._closed = True

    def is_closed(self):
        return self._closed

    def is_running(self):
        return True

    def set_debug(self, v):
        self._debug = v

    def get_debug(self):
        return self._debug

    def set_exception_handler(self, h):
        self._exc_handler = h

    def time(self):
        import time
        return time.monotonic()

    def call_soon(self, cb, *args, context=None):
        h = _Handle()
        spawn("callback", _run_handle, None, h, cb, args)
        return h

    call_soon_threadsafe = call_soon

    def call_later(self, delay, cb, *args, context=None):
        h = _Handle()
        spawn("callback", _run_later(h, cb, args), None)
        return h

    call_at = call_later

    def add_signal_handler(self, sig, cb, *args):
        self._handlers[sig] = (cb, args)
        emit("add_signal_handler", self, sig, cb, args)

    def remove_signal_handler(self, sig):
        return self._handlers.pop(sig, None) is not None

    async def shutdown_asyncgens(self):
        pass

    def run_in_executor(self, executor, fn, *args):
        f = Future()
        spawn("executor", _run_executor, None, f, fn, args)
        return f


def _run_executor(f, fn, args):
    try:
        r = fn(*args)
    except BaseException as e:
        f.set_exception(e)
    else:
        f.set_result(r)


BaseEventLoop = AbstractEventLoop
AbstractEventLoop._stopped = False
_LOOP = AbstractEventLoop()


def get_event_loop():
    return _LOOP


def new_event_loop():
    return _LOOP


def set_event_loop(loop):
    pass


def get_running_loop():
    if current() is None:
        raise RuntimeError("no running event loop")
    return _LOOP


def set_event_loop_policy(p):
    pass


def run(main, *, debug=None, loop_factory=None):
    task = ensure_future(main)
    while not task._done:
        block(task)
    rest = tasks()
    for t in rest:
        t.cancel()
    for t in rest:
        while not t._done:
            block(t)
    return task.result()


class Runner:
    def __init__(self, *, debug=None, loop_factory=None):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def get_loop(self):
        return _LOOP

    def run(self, coro):
        return run(coro)

    def close(self):
        pass
