from __sa__ import block, notify, pause, emit, spawn


class Error(Exception):
    pass


class CancelledError(Error):
    pass


class InvalidStateError(Error):
    pass


class BrokenExecutor(RuntimeError):
    pass


TimeoutError = TimeoutError

PENDING, RUNNING, CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED = (
    "PENDING", "RUNNING", "CANCELLED", "CANCELLED_AND_NOTIFIED", "FINISHED")
FIRST_COMPLETED, FIRST_EXCEPTION, ALL_COMPLETED = "FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"


class Future:
    def __init__(self):
        self._state = PENDING
        self._result = None
        self._exception = None
        self._done_callbacks = []

    def cancel(self):
        pause(self)
        if self._state in (RUNNING, FINISHED):
            return False
        if self._state in (CANCELLED, CANCELLED_AND_NOTIFIED):
            return True
        self._state = CANCELLED
        emit("future_cancelled", self)
        notify(self)
        self._invoke_callbacks()
        return True

    def cancelled(self):
        pause(self)
        return self._state in (CANCELLED, CANCELLED_AND_NOTIFIED)

    def running(self):
        pause(self)
        return self._state == RUNNING

    def done(self):
        pause(self)
        return self._state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED)

    def add_done_callback(self, fn):
        if self._state not in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
            self._done_callbacks.append(fn)
            return
        try:
            fn(self)
        except Exception:
            pass

    def _invoke_callbacks(self):
        for fn in self._done_callbacks:
            try:
                fn(self)
            except Exception:
                pass

    def _wait(self, timeout):
        pause(self)
        while self._state not in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
            block(self, timeout is not None)
            if timeout is not None and self._state not in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
                raise TimeoutError()
        if self._state in (CANCELLED, CANCELLED_AND_NOTIFIED):
            raise CancelledError()

    def result(self, timeout=None):
        self._wait(timeout)
        if self._exception is not None:
            raise self._exception
        return self._result

    def exception(self, timeout=None):
        self._wait(timeout)
        return self._exception

    def set_running_or_notify_cancel(self):
        pause(self)
        if self._state == CANCELLED:
            self._state = CANCELLED_AND_NOTIFIED
            notify(self)
            return False
        if self._state == PENDING:
            self._state = RUNNING
            return True
        raise RuntimeError("Future in unexpected state")

    def set_result(self, result):
        pause(self)
        if self._state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
            raise InvalidStateError(self._state)
        self._result = result
        self._state = FINISHED
        emit("future_result", self, result)
        notify(self)
        self._invoke_callbacks()

    def set_exception(self, exception):
        pause(self)
        if self._state in (CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED):
            raise InvalidStateError(self._state)
        self._exception = exception
        self._state = FINISHED
        emit("future_exception", self, exception)
        notify(self)
        self._invoke_callbacks()


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    for f in fs:
        while not f.done():
            block(f, timeout is not None)
            if timeout is not None:
                break
    return set([f for f in fs if f.done()]), set([f for f in fs if not f.done()])


def as_completed(fs, timeout=None):
    for f in fs:
        while not f.done():
            block(f, timeout is not None)
        yield f


class Executor:
    pass


class ThreadPoolExecutor(Executor):
    def __init__(self, max_workers=None, **kw):
        pass

    def submit(self, fn, *args, **kwargs):
        f = Future()
        spawn("pool", _run, None, f, fn, args, kwargs)
        return f

    def shutdown(self, wait=True, *, cancel_futures=False):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def _run(f, fn, args, kwargs):
    if not f.set_running_or_notify_cancel():
        return
    try:
        r = fn(*args, **kwargs)
    except BaseException as e:
        f.set_exception(e)
    else:
        f.set_result(r)
