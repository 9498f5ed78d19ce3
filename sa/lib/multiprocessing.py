import os

from __sa__ import block, emit, world


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, *, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs
        self._mp_name = name
        self._mp_daemon = daemon
        self._mp_started = False
        self._mp_pid = None
        self._mp_exit = None

    @property
    def name(self):
        return self._mp_name

    @name.setter
    def name(self, v):
        self._mp_name = v

    @property
    def pid(self):
        return self._mp_pid

    @property
    def ident(self):
        return self._mp_pid

    @property
    def daemon(self):
        return self._mp_daemon

    @daemon.setter
    def daemon(self, v):
        self._mp_daemon = v

    @property
    def exitcode(self):
        return self._mp_exit

    @property
    def sentinel(self):
        return 1

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self._mp_started:
            raise AssertionError("cannot start a process twice")
        self._mp_started = True
        self._mp_pid = emit("process_start", self)

    def terminate(self):
        emit("process_terminate", self)

    def kill(self):
        emit("process_kill", self)

    def join(self, timeout=None):
        if not self._mp_started:
            raise AssertionError("can only join a started process")
        while not emit("process_exited", self):
            block(self, True)
            if timeout is not None:
                return

    def is_alive(self):
        return self._mp_started and not emit("process_exited", self)

    def close(self):
        pass


class _Context:
    def __init__(self, method):
        self._method = method
        self.Process = Process

    def get_start_method(self, allow_none=False):
        return self._method


_CONTEXTS = {"spawn": _Context("spawn"), "fork": _Context("fork"), "forkserver": _Context("forkserver"), None: _Context("fork")}


def get_context(method=None):
    return _CONTEXTS[method]


def current_process():
    p = world("current_process")
    if p is not None:
        return p
    return _CURRENT


def active_children():
    return []


def cpu_count():
    return 8


def set_start_method(m, force=False):
    pass


_CURRENT = Process(name="MainProcess")
_CURRENT._mp_pid = os.getpid()
_CURRENT._mp_started = True
