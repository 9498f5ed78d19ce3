from __sa__ import suspend, notify, spawn, cancel
from asyncio.exceptions import CancelledError, InvalidStateError


class Future:
    def __init__(self, *, loop=None):
        self._done = False
        self._cancelled = False
        self._result = None
        self._exception = None
        self._callbacks = []
        self._outer = []

    def done(self):
        return self._done

    def cancelled(self):
        return self._cancelled

    def result(self):
        if self._cancelled:
            raise CancelledError()
        if not self._done:
            raise InvalidStateError("Result is not set.")
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self):
        if self._cancelled:
            raise CancelledError()
        if not self._done:
            raise InvalidStateError("Exception is not set.")
        return self._exception

    def set_result(self, result):
        if self._done:
            raise InvalidStateError("invalid state")
        self._result = result
        self._finish()

    def set_exception(self, exception):
        if self._done:
            raise InvalidStateError("invalid state")
        if isinstance(exception, type):
            exception = exception()
        self._exception = exception
        self._finish()

    def cancel(self, msg=None):
        if self._done:
            return False
        self._cancelled = True
        self._finish()
        return True

    def _finish(self):
        self._done = True
        notify(self)
        for o in self._outer:
            notify(o)
        cbs = self._callbacks
        self._callbacks = []
        for cb in cbs:
            spawn("callback", cb, None, self)

    def add_done_callback(self, fn, *, context=None):
        if self._done:
            spawn("callback", fn, None, self)
        else:
            self._callbacks.append(fn)

    def remove_done_callback(self, fn):
        n = len(self._callbacks)
        self._callbacks = [c for c in self._callbacks if c is not fn]
        return n - len(self._callbacks)

    def get_loop(self):
        from asyncio.events import get_event_loop
        return get_event_loop()

    async def _wait(self):
        if not self._done:
            try:
                await suspend("wait", self)
            except CancelledError:
                if not self._done and not isinstance(self, Task):
                    self.cancel()
                elif not self._done:
                    self.cancel()
                raise
        return self.result()

    def __await__(self):
        return self._wait()

    __iter__ = __await__


class Task(Future):
    def __init__(self, coro, *, loop=None, name=None, context=None):
        self._done = False
        self._cancelled = False
        self._result = None
        self._exception = None
        self._callbacks = []
        self._outer = []
        self._name = name
        spawn(name or "task", coro, self)

    def cancel(self, msg=None):
        if self._done:
            return False
        return cancel(self)

    def get_name(self):
        return self._name

    def set_name(self, name):
        self._name = name

    def set_result(self, result):
        raise RuntimeError("Task does not support set_result operation")

    def set_exception(self, exception):
        raise RuntimeError("Task does not support set_exception operation")


def isfuture(o):
    return isinstance(o, Future)


def ensure_future(o, *, loop=None):
    if isinstance(o, Future):
        return o
    return Task(o)


def create_task(coro, *, name=None, context=None):
    return Task(coro, name=name)


def iscoroutinefunction(f):
    from inspect import iscoroutinefunction
    return iscoroutinefunction(f)


def iscoroutine(o):
    from inspect import iscoroutine
    return iscoroutine(o)
