"""Drives the real worker agent in one process: its sockets, its processor process and os.kill are recorders."""
import asyncio
import os
import sys
import types

sys.path.insert(0, os.getcwd())

import zmq  # noqa: E402
import scaled.worker.agent.heartbeat_manager as hm  # noqa: E402
import scaled.worker.agent.processor_manager as pm  # noqa: E402
import scaled.worker.worker as ww  # noqa: E402
from scaled.protocol.python.message import *  # noqa: E402,F401,F403
from scaled.protocol.python.message import Argument, ArgumentType, FunctionRequest, FunctionRequestType  # noqa: E402
from scaled.protocol.python.message import Task, TaskResult, TaskStatus  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402

connectors = {}
processors = []
killed = []
removed = []


class FakeConnector:
    def __init__(self, context, socket_type, address, bind_or_connect, callback):
        self.queue = asyncio.Queue()
        self.callback = callback
        self.sent = []
        self.seen = 0
        self.destroyed = False
        self.identity = b"me"
        connectors["internal" if socket_type == zmq.PAIR else "external"] = self

    async def routine(self):
        await self.callback(await self.queue.get())

    async def send(self, message):
        self.sent.append(message)

    def destroy(self):
        self.destroyed = True


class FakeProcessor:
    def __init__(self, **kwargs):
        self.pid = None

    def start(self):
        processors.append(self)
        self.pid = 1000000000 + len(processors)

    def is_alive(self):
        return True

    def terminate(self):
        killed.append(self.pid)

    kill = terminate

    def join(self, *a):
        pass


class FakeOs:
    path = os.path

    def __getattr__(self, name):
        if name in ("kill", "killpg"):
            return lambda pid, sig: killed.append(pid)
        if name in ("remove", "unlink"):
            return removed.append
        return getattr(os, name)


class FakePsProcess:
    def __init__(self, pid=None):
        pass

    def cpu_percent(self, *a):
        return 0.0

    def memory_info(self):
        return types.SimpleNamespace(rss=1)


class World:
    def __init__(self, heartbeat=1000, death=1000):
        self.args = dict(heartbeat=heartbeat, death=death)

    async def __aenter__(self):
        ww.AsyncConnector = pm.AsyncConnector = FakeConnector
        pm.Processor = FakeProcessor
        pm.os = FakeOs()
        pm.setup_logger = lambda *a, **k: None
        hm.psutil = types.SimpleNamespace(Process=FakePsProcess)
        ww.register_event_loop = lambda *a: None
        self.worker = ww.Worker(
            event_loop="builtin",
            address=ZMQConfig.from_string("tcp://127.0.0.1:23998"),
            heartbeat_interval_seconds=self.args["heartbeat"],
            garbage_collect_interval_seconds=1000,
            trim_memory_threshold_bytes=1 << 40,
            serializer=None,
            function_retention_seconds=1000,
            death_timeout_seconds=self.args["death"],
        )
        self.worker._Worker__initialize()
        self.loops = self.worker._task
        self.external, self.internal = connectors["external"], connectors["internal"]
        await asyncio.sleep(0.02)
        return self

    async def __aexit__(self, kind, *exc):
        if kind is None:
            self.alive()
        self.loops.cancel()
        await asyncio.wait([self.loops])

    def alive(self):
        if self.loops.done():
            fail(f"the agent's loops ended: {self.loops.exception()!r}")

    async def rest(self, wait=0.03):
        await asyncio.sleep(wait)
        self.alive()
        out = []
        for c in (self.external, self.internal):
            out += [(("scheduler" if c is self.external else "processor"), m) for m in c.sent[c.seen:] if type(m).__name__ != "Heartbeat"]
            c.seen = len(c.sent)
        return out

    async def get(self, message, wait=0.03):
        await self.external.queue.put(message)
        return await self.rest(wait)

    async def processor(self, message, wait=0.03):
        await self.internal.queue.put(message)
        return await self.rest(wait)

    async def ready(self):
        return await self.processor(TaskResult(b"", TaskStatus.Success, 0.0, b""))

    async def task(self, tid, fid=b"f"):
        return await self.get(Task(tid, fid, []))

    async def result(self, tid, status=TaskStatus.Success):
        return await self.processor(TaskResult(tid, status, 0.0, b"r"))


def fail(text):
    print("FAIL:", text)
    sys.stdout.flush()
    os._exit(1)


def run(test):
    import logging

    logging.disable(logging.CRITICAL)
    asyncio.run(asyncio.wait_for(test(), 100))
    print("ok")
