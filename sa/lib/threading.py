from __sa__ import block, notify, spawn, pause, strand, current, unk


class Thread:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self._daemonic = bool(daemon)
        self._name = name if name is not None else "Thread-1"
        self._started = False
        self._finished = False

    @property
    def daemon(self):
        return self._daemonic

    @daemon.setter
    def daemon(self, v):
        self._daemonic = v

    @property
    def name(self):
        return self._name

    @property
    def ident(self):
        return 1 if self._started else None

    native_id = ident

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def _bootstrap(self):
        try:
            self.run()
        finally:
            self._finished = True
            notify(self)

    def start(self):
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        spawn(self._name, self._bootstrap, None)
        pause(self)

    def join(self, timeout=None):
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        while not self._finished:
            block(self, timeout is not None)
            if timeout is not None:
                return

    def is_alive(self):
        pause(self)
        return self._started and not self._finished


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        Thread.__init__(self, target=function, args=args or (), kwargs=kwargs)
        self._timer_cancelled = False

    def cancel(self):
        self._timer_cancelled = True

    def run(self):
        block(self, True)
        if not self._timer_cancelled:
            self._target(*self._args, **self._kwargs)


class Lock:
    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        pause(self)
        while self._locked:
            if not blocking:
                return False
            block(self, timeout is not None and timeout >= 0)
            if self._locked and timeout is not None and timeout >= 0:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        notify(self)

    def locked(self):
        pause(self)
        return self._locked

    def __enter__(self):
        pause(self)
        while self._locked:
            block(self)
        self._locked = True
        return True

    def __exit__(self, *a):
        self._locked = False
        notify(self)


class RLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        pause(self)
        me = strand()
        while self._owner is not None and self._owner != me:
            if not blocking:
                return False
            block(self, timeout is not None and timeout >= 0)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner != strand():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            notify(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Condition:
    def __init__(self, lock=None):
        self._lock = lock or RLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        self._lock.release()
        block(self, timeout is not None)
        self._lock.acquire()
        return True

    def wait_for(self, predicate, timeout=None):
        r = predicate()
        while not r:
            self.wait(timeout)
            r = predicate()
            if timeout is not None:
                break
        return r

    def notify(self, n=1):
        notify(self, n)

    def notify_all(self):
        notify(self)


class Semaphore:
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        pause(self)
        while self._value == 0:
            if not blocking:
                return False
            block(self, timeout is not None)
            if timeout is not None and self._value == 0:
                return False
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        notify(self)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


BoundedSemaphore = Semaphore


class Event:
    def __init__(self):
        self._flag = False

    def is_set(self):
        pause(self)
        return self._flag

    isSet = is_set

    def set(self):
        pause(self)
        self._flag = True
        notify(self)

    def clear(self):
        pause(self)
        self._flag = False

    def wait(self, timeout=None):
        pause(self)
        while not self._flag:
            block(self, timeout is not None)
            if timeout is not None:
                break
        return self._flag


class local:
    pass


def current_thread():
    return Thread()


def main_thread():
    return Thread()


def get_ident():
    return strand()


def active_count():
    return 1


excepthook = None
