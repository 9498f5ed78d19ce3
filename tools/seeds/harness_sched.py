"""Drives the real Scheduler in one process, with its sockets replaced by recorders."""
import asyncio
import os
import sys

sys.path.insert(0, os.getcwd())

import scaled.scheduler.main as main  # noqa: E402
from scaled.protocol.python.message import *  # noqa: E402,F401,F403
from scaled.protocol.python.message import Argument, ArgumentType, FunctionRequest, FunctionRequestType  # noqa: E402
from scaled.protocol.python.message import Heartbeat, Task, TaskResult, TaskStatus  # noqa: E402
from scaled.utility.zmq_config import ZMQConfig  # noqa: E402


class FakeBinder:
    def __init__(self, *args, **kwargs):
        self.queue = asyncio.Queue()
        self.sent = []

    def register(self, callback):
        self.callback = callback

    async def routine(self):
        source, message = await self.queue.get()
        await self.callback(source, message)

    async def send(self, to, message):
        self.sent.append((to, message))

    async def statistics(self):
        return {"binder": {"received": {}, "sent": {}}}

    def destroy(self):
        pass


class FakeConnector:
    def __init__(self, *args, **kwargs):
        self.sent = []

    async def send(self, message):
        self.sent.append(message)

    def destroy(self):
        pass


def heartbeat(queued=0):
    return Heartbeat(0.0, 1, 0.0, 1, queued, 0, True, False, False)


class World:
    def __init__(self, waiting=-1, queue=10, timeout=60, retention=60, balance=0, times=2, tick=0.02):
        main.AsyncBinder = FakeBinder
        main.AsyncConnector = FakeConnector
        main.CLEANUP_INTERVAL_SECONDS = tick
        self.scheduler = main.Scheduler(
            address=ZMQConfig.from_string("tcp://127.0.0.1:23999"),
            io_threads=1,
            max_number_of_tasks_waiting=waiting,
            per_worker_queue_size=queue,
            worker_timeout_seconds=timeout,
            function_retention_seconds=retention,
            load_balance_seconds=balance,
            load_balance_trigger_times=times,
        )
        self.binder = self.scheduler._binder
        self.monitor = self.scheduler._binder_monitor
        self.loops = None
        self.seen = 0

    async def __aenter__(self):
        self.loops = asyncio.ensure_future(self.scheduler.get_loops())
        await asyncio.sleep(0.05)
        return self

    async def __aexit__(self, *exc):
        if self.loops.done():
            print("FAIL: the scheduler's loops ended:", self.loops.exception())
            sys.exit(1)
        self.loops.cancel()

    async def get(self, source, message, wait=0.05):
        """deliver one message, return what was sent since the last call"""
        await self.binder.queue.put((source, message))
        return await self.rest(wait)

    async def rest(self, wait=0.05):
        await asyncio.sleep(wait)
        if self.loops.done():
            print("FAIL: the scheduler's loops ended:", repr(self.loops.exception()))
            sys.exit(1)
        out, self.seen = self.binder.sent[self.seen:], len(self.binder.sent)
        return out

    async def worker(self, name):
        return await self.get(name, heartbeat())

    async def function(self, client, fid=b"f"):
        return await self.get(client, FunctionRequest(FunctionRequestType.Add, fid, b"name", b"content"))

    async def submit(self, client, tid, fid=b"f", args=()):
        return await self.get(client, Task(tid, fid, [Argument(ArgumentType.Data, a) for a in args]))

    async def result(self, worker, tid, status=TaskStatus.Success, data=b"r"):
        return await self.get(worker, TaskResult(tid, status, 0.0, data))


def fail(text):
    print("FAIL:", text)
    sys.exit(1)


def run(test):
    import logging

    logging.disable(logging.CRITICAL)
    asyncio.run(asyncio.wait_for(test(), 100))
    print("ok")
