from __sa__ import unk, world


def _read(kind, pid, type):
    v = world("reading", kind, pid, type)
    return unk(type) if v is None else v


class _Mem:
    def __init__(self, pid=None):
        self.rss = _read("rss", pid, "int")
        self.vms = _read("vms", pid, "int")
        self.percent = _read("percent", pid, "float")


class _Once:
    def __enter__(self):
        return None

    def __exit__(self, *exc):
        return False


class Process:
    def __init__(self, pid=None):
        self.pid = pid

    def cpu_percent(self, interval=None):
        return _read("cpu", self.pid, "float")

    def memory_info(self):
        return _Mem(self.pid)

    def memory_percent(self):
        return _read("percent", self.pid, "float")

    def children(self, recursive=False):
        return []

    def is_running(self):
        return True

    def status(self):
        return "running"

    def oneshot(self):
        return _Once()

    def memory_full_info(self):
        return _Mem(self.pid)

    def name(self):
        return unk("str")

    def num_threads(self):
        return unk("int")

    def create_time(self):
        return unk("float")
