from functools import wraps


class AbstractContextManager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class ContextDecorator:
    def __call__(self, fn):
        @wraps(fn)
        def inner(*a, **k):
            with self:
                return fn(*a, **k)

        return inner


class _GeneratorContextManager(ContextDecorator):
    def __init__(self, gen):
        self.gen = gen

    def __enter__(self):
        try:
            return next(self.gen)
        except StopIteration:
            raise RuntimeError("generator didn't yield")

    def __exit__(self, typ, value, tb):
        if typ is None:
            try:
                next(self.gen)
            except StopIteration:
                return False
            raise RuntimeError("generator didn't stop")
        try:
            self.gen.throw(value)
        except StopIteration as e:
            return e is not value
        except BaseException as e:
            if e is not value:
                raise
            return False
        raise RuntimeError("generator didn't stop after throw()")


def contextmanager(fn):
    @wraps(fn)
    def helper(*a, **k):
        return _GeneratorContextManager(fn(*a, **k))

    return helper


class suppress:
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, typ, value, tb):
        return typ is not None and issubclass(typ, self._excs)


class nullcontext:
    def __init__(self, result=None):
        self._result = result

    def __enter__(self):
        return self._result

    def __exit__(self, *a):
        return None

    async def __aenter__(self):
        return self._result

    async def __aexit__(self, *a):
        return None


class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *a):
        self.thing.close()


class ExitStack:
    def __init__(self):
        self._cbs = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append(cm.__exit__)
        return r

    def callback(self, fn, *a, **k):
        def cb(*exc):
            fn(*a, **k)

        self._cbs.append(cb)
        return fn

    def push(self, ex):
        self._cbs.append(ex.__exit__ if hasattr(ex, "__exit__") else ex)
        return ex

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, typ, value, tb):
        suppressed = False
        for cb in reversed(self._cbs):
            if cb(typ, value, tb):
                suppressed = True
                typ, value = None, None
        self._cbs = []
        return suppressed
