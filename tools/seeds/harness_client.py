"""The real Client with a connector that only records; replies are delivered by hand (on the caller's thread)."""
import os
import pickle
import sys

sys.path.insert(0, os.getcwd())

import scaled.client as cl  # noqa: E402
from scaled.protocol.python.message import *  # noqa: E402,F401,F403
from scaled.protocol.python.message import ArgumentType, FunctionResponse, FunctionResponseType, GraphTask  # noqa: E402
from scaled.protocol.python.message import GraphTaskResult, Task, TaskEcho, TaskEchoStatus, TaskResult, TaskStatus  # noqa: E402


class FakeConnector:
    def __init__(self, stop_event, context, socket_type, bind_or_connect, address, callback, exit_callback, daemonic):
        self.stop_event, self.callback, self.exit_callback = stop_event, callback, exit_callback
        self.sent = []
        self.seen = 0
        self.identity = b"me"
        self.closed = False

    def start(self):
        pass

    def send(self, message):
        assert not self.closed, "sent after the end"
        self.sent.append(message)

    send_immediately = send

    def join(self):
        pass

    def take(self):
        out, self.seen = self.sent[self.seen:], len(self.sent)
        return out

    def end(self):
        self.exit_callback()
        self.closed = True
        return self.take()


cl.SyncConnector = FakeConnector


def client(**kwargs):
    c = cl.Client("tcp://127.0.0.1:23997", **kwargs)
    k = [v for v in vars(c).values() if isinstance(v, FakeConnector)][0]
    return c, k


def ok(k):
    """answer the function requests, return the tasks that were sent"""
    tasks = []
    while True:
        new = k.take()
        if not new:
            return tasks
        for m in new:
            if type(m).__name__ == "FunctionRequest":
                k.callback(FunctionResponse(FunctionResponseType.OK, m.function_id, b"", b""))
            else:
                tasks.append(m)


def fail(text):
    print("FAIL:", text)
    sys.stdout.flush()
    os._exit(1)
