from __sa__ import block, emit, world

PAIR, PUB, SUB, REQ, REP, DEALER, ROUTER, PULL, PUSH = 0, 1, 2, 3, 4, 5, 6, 7, 8
AFFINITY, IDENTITY, ROUTING_ID, SUBSCRIBE, UNSUBSCRIBE = 4, 5, 5, 6, 7
SNDHWM, RCVHWM, RCVTIMEO, SNDTIMEO, LINGER, RCVMORE = 23, 24, 27, 28, 17, 13
ROUTER_MANDATORY, ROUTER_HANDOVER, HEARTBEAT_IVL, HEARTBEAT_TIMEOUT, TCP_KEEPALIVE, IMMEDIATE = 33, 56, 75, 77, 34, 39
RECONNECT_IVL, RECONNECT_IVL_MAX, CONFLATE, PROBE_ROUTER = 18, 21, 54, 51
POLLIN, POLLOUT, POLLERR = 1, 2, 4
NOBLOCK, DONTWAIT, SNDMORE = 1, 1, 2
EAGAIN, ETERM, EINTR, ENOTSOCK, EHOSTUNREACH = 11, 156384765, 4, 88, 113


class ZMQError(Exception):
    errno = None


class Again(ZMQError):
    errno = EAGAIN


class ContextTerminated(ZMQError):
    errno = ETERM


class NotDone(ZMQError):
    pass


class Context:
    _instance = None
    _socket_class = None

    def __init__(self, io_threads=1, **kw):
        self.io_threads = io_threads
        self.closed = False

    @classmethod
    def instance(cls, io_threads=1):
        return _INSTANCES[cls] if cls in _INSTANCES else cls(io_threads)

    def socket(self, socket_type, **kw):
        s = self._socket_class(self, socket_type)
        emit("socket", s)
        return s

    def term(self):
        self.closed = True

    def destroy(self, linger=None):
        self.closed = True
        emit("context_destroy", self)

    def setsockopt(self, opt, value):
        pass

    set = setsockopt

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.term()


class Socket:
    def __init__(self, context, socket_type):
        self.context = context
        self.socket_type = socket_type
        self.type = socket_type
        self.closed = False
        self.options = {}
        self.address = None
        self.inbox = []
        self.subscriptions = []

    def setsockopt(self, opt, value):
        if opt == SUBSCRIBE:
            self.subscriptions.append(value)
        self.options[opt] = value

    set = setsockopt
    setsockopt_string = setsockopt

    def getsockopt(self, opt):
        return self.options.get(opt)

    get = getsockopt

    @property
    def identity(self):
        return self.options.get(IDENTITY)

    @identity.setter
    def identity(self, v):
        self.options[IDENTITY] = v

    @property
    def linger(self):
        return self.options.get(LINGER)

    @linger.setter
    def linger(self, v):
        self.options[LINGER] = v

    def bind(self, addr):
        self.address = addr
        emit("bind", self, addr)

    def connect(self, addr):
        self.address = addr
        emit("connect", self, addr)

    def unbind(self, addr):
        pass

    disconnect = unbind

    def subscribe(self, topic):
        self.subscriptions.append(topic)

    def monitor(self, *a, **k):
        pass

    def close(self, linger=None):
        if not self.closed:
            self.closed = True
            emit("close", self)

    def _check(self):
        if self.closed:
            raise ZMQError("Socket operation on non-socket")

    def _send(self, frames):
        if self.closed:
            raise ZMQError("Socket operation on non-socket")
        emit("send", self, list(frames))

    def send_multipart(self, msg_parts, flags=0, copy=True, track=False, **kw):
        self._send(msg_parts)

    def send(self, data, flags=0, copy=True, track=False, **kw):
        self._send([data])

    def send_string(self, s, flags=0, encoding="utf-8"):
        self._send([s.encode(encoding)])

    def send_pyobj(self, obj, flags=0, protocol=5):
        import pickle
        self._send([pickle.dumps(obj)])

    def recv_multipart(self, flags=0, copy=True, track=False):
        self._check()
        emit("use", self)
        while not self.inbox:
            if flags & NOBLOCK:
                raise Again("Resource temporarily unavailable")
            t = RCVTIMEO in self.options
            block(self, t)
            self._check()
            if t and not self.inbox:
                raise Again("Resource temporarily unavailable")
        m = self.inbox.pop(0)
        emit("recv", self, m)
        return m

    def recv(self, flags=0, copy=True, track=False):
        return self.recv_multipart(flags)[0]

    def poll(self, timeout=None, flags=1):
        self._check()
        emit("use", self)
        if not self.inbox:
            block(self, timeout is not None)
            self._check()
        return 1 if self.inbox else 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


Context._socket_class = Socket
_INSTANCES = {Context: Context()}


class Poller:
    def __init__(self):
        self.sockets = []

    def register(self, socket, flags=3):
        self.sockets.append((socket, flags))

    def unregister(self, socket):
        self.sockets = [s for s in self.sockets if s[0] is not socket]

    def poll(self, timeout=None):
        return [(s, 1) for s, _ in self.sockets if s.poll(timeout)]


error = None
