import zmq
from __sa__ import emit, suspend
from asyncio.futures import Future


class Socket(zmq.Socket):
    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        f = Future()
        self._send(msg_parts)
        f.set_result(None)
        return f

    def send(self, data, flags=0, copy=True, track=False, **kw):
        f = Future()
        self._send([data])
        f.set_result(None)
        return f

    async def recv_multipart(self, flags=0, copy=True, track=False):
        self._check()
        while not self.inbox:
            if flags & 1:
                raise zmq.Again("Resource temporarily unavailable")
            await suspend("wait", self)
            self._check()
        m = self.inbox.pop(0)
        emit("recv", self, m)
        return m

    async def recv(self, flags=0, copy=True, track=False):
        return (await self.recv_multipart(flags))[0]

    async def poll(self, timeout=None, flags=1):
        self._check()
        if not self.inbox:
            await suspend("timer" if timeout is not None else "wait", self)
            self._check()
        return 1 if self.inbox else 0


class Context(zmq.Context):
    _socket_class = Socket


class Poller(zmq.Poller):
    async def poll(self, timeout=None):
        return [(s, 1) for s, _ in self.sockets if await s.poll(timeout)]


zmq._INSTANCES[Context] = Context()
