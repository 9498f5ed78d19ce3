"""The three transports (binder, asynchronous and synchronous connector) with arbitrary incoming frames and every message sent."""
from __future__ import annotations

from ..loader import load_source
from .base import *  # noqa: F401,F403
from .base import MonitorWorld, Messages, ID, ATOM, Obj, Sym, GuestError, construct_of, describe, exc_text, site_text
from . import protocol

ADDRESS = "tcp://127.0.0.1:2345"
HEAD = """
import asyncio
import threading
import zmq
import zmq.asyncio
from __sa__ import emit
from scaled.io.async_binder import AsyncBinder
from scaled.io.async_connector import AsyncConnector
from scaled.io.sync_connector import SyncConnector
from scaled.utility.zmq_config import ZMQConfig

ADDRESS = ZMQConfig.from_string("%s")


async def on_routed(source, message):
    emit("deliver", source, message)


async def on_message(message):
    emit("deliver", None, message)


def on_message_sync(message):
    emit("deliver", None, message)


def binder():
    b = AsyncBinder(ADDRESS, io_threads=1)
    b.register(on_routed)
    emit("made", b)
    return b


def connector(kind, how):
    c = AsyncConnector(context=zmq.asyncio.Context(io_threads=1), socket_type=kind, address=ADDRESS, bind_or_connect=how, callback=on_message)
    emit("made", c)
    return c


def sync(how):
    event = threading.Event()
    c = SyncConnector(stop_event=event, context=zmq.Context(), socket_type=zmq.DEALER, bind_or_connect=how, address=ADDRESS,
                      callback=on_message_sync, exit_callback=None, daemonic=True)
    emit("made", c)
    return c
""" % ADDRESS

MAKE = {"binder": "binder()", "connector": 'connector(zmq.DEALER, "connect")', "acceptor": 'connector(zmq.PAIR, "bind")',
        "publisher": 'connector(zmq.PUB, "bind")', "sync": 'sync("connect")', "sync_bind": 'sync("bind")'}
TYPES = {"binder": 6, "connector": 5, "acceptor": 0, "publisher": 1, "sync": 5, "sync_bind": 5}

RECEIVE = """
def main():
    asyncio.run(amain())

async def amain():
    t = %s
    while True:
        await t.routine()
"""
SEND = """
def main():
    asyncio.run(amain())

async def amain():
    t = %s
    for i in range(%d):
        a = emit("next", i)
        await t.send(*a)
        emit("queued", i)
"""
SYNC_RECEIVE = """
def main():
    c = %s
    c.start()
    c.join()
"""
SYNC_SEND = """
def main():
    c = %s
    c.start()
    for i in range(%d):
        a = emit("next", i)
        c.send(*a)
        emit("queued", i)
"""
SYNC_IMMEDIATE = """
def main():
    c = %s
    for i in range(%d):
        a = emit("next", i)
        c.send_immediately(*a)
        emit("queued", i)
"""

COUNT = """
def main():
    asyncio.run(amain())

async def amain():
    t = %s
    while True:
        kind, what = emit("op", None)
        if kind == "receive":
            for _ in range(what):
                await t.routine()
        elif kind == "send":
            await t.send(*what)
        elif kind == "report":
            emit("report", await t.statistics())
        else:
            break
"""


class Cfg:
    transport = "binder"
    mode = "receive"
    operations = 2
    messages = 2
    preempt = False

    def __init__(self, **k):
        for n, v in k.items():
            if not hasattr(Cfg, n):
                raise AttributeError(n)
            setattr(self, n, v)


class TransportWorld(MonitorWorld):
    crash_props = "P04 P05"
    int_cap = 9
    forget_counters = True

    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        self.threaded = cfg.transport.startswith("sync") and cfg.mode != "immediate"
        self.crash_props = {"receive": "P04", "count": "P07"}.get(cfg.mode, "P05")

    def prepare(self, vm):
        c = self.cfg
        self.M = Messages(vm)
        make = MAKE[c.transport]
        if c.mode == "count":
            text = COUNT % make
        elif c.transport.startswith("sync"):
            text = SYNC_RECEIVE % make if c.mode == "receive" else (SYNC_SEND if c.mode == "send" else SYNC_IMMEDIATE) % (make, c.messages)
        else:
            text = RECEIVE % make if c.mode == "receive" else SEND % (make, c.messages)
        self.mod = load_source(vm, "_driver", HEAD + text)
        self.tags = list(dict.fromkeys(self.M.ns["MessageType"].members.values()))
        self.classes = [vm.subscr(self.M.ns["PROTOCOL"], t) for t in self.tags]
        vm.preempt = c.preempt
        if c.mode == "count":
            vm.budget *= 10

    def message(self, vm, cls, label):
        t = ("obj", cls)
        b = protocol.Builder(vm, {d: 2 for d in protocol.dims(vm, t)}, "distinct", {})
        return b.build(t, (), label)

    def setup(self, vm):
        self.start(vm)
        mon = vm.st.mon
        mon["made"] = None
        mon["sock"] = None
        mon["opts"] = None
        mon["linked"] = False
        mon["want"] = ()          # messages that must leave
        mon["got"] = ()           # messages that must be delivered
        mon["asked"] = 0
        if self.cfg.mode == "count":
            self.plan(vm)
        elif self.cfg.mode != "receive":
            mon["first"] = vm.choose(len(self.classes), "message")
        self.main(vm, "main", vm.getattr(self.mod, "main"))
        if not self.threaded:
            self.run(vm)
        elif self.cfg.mode == "receive":
            self.settle_threads(vm)
        self.check(vm)

    # ------------------------------------------------------------------ boundary
    def emit(self, vm, kind, obj, args):
        mon = vm.st.mon
        if self.threaded and kind in ("send", "recv", "use", "close", "context_destroy"):
            self.checked("socket used by a thread")
            if vm.st.strands.index(vm.cur) != 1:
                self.bad("P06", "thread", f"the socket is used ({kind}) by a thread that is not the connector's")
        if kind == "socket":
            if mon["sock"] is not None:
                self.bad("P05", "second-socket", "a second socket is created")
            mon["sock"] = obj
        elif kind in ("bind", "connect"):
            self.connected(vm, kind, obj, args[0])
        elif kind == "made":
            mon["made"] = obj
            if not mon["linked"]:
                self.bad(self.crash_props, "not-connected", "the transport's socket is neither bound nor connected, no message can get through")
            if self.cfg.transport != "binder":
                self.checked("identity compared")
                opts = {k: v for k, v in mon["sock"].f["options"].x.items()}
                if vm.getattr(obj, "identity") != opts.get(5):
                    self.bad("P05", "identity", f"the transport reports the identity {describe(vm.getattr(obj, 'identity'))}, its socket has {describe(opts.get(5))}")
        elif kind == "next":
            return self.next(vm, obj)
        elif kind == "op":
            return self.operation(vm)
        elif kind == "report":
            self.counters(vm, obj)
        elif kind == "queued":
            self.checked("send returned")
        elif kind == "send":
            self.sent(vm, tuple(args[0].x))
        elif kind == "deliver":
            self.delivered(vm, obj, args[0])
        elif kind == "context_destroy":
            self.bad(self.crash_props, "destroyed", "the context is destroyed")
        return None

    def connected(self, vm, kind, sock, addr):
        vm.st.mon["linked"] = True
        self.checked("socket " + kind)
        opts = sock.f["options"].x
        for o, n in ((23, "send"), (24, "receive")):
            if opts.get(o) != 0:
                self.bad("P05", "high-water-mark", f"the socket is used with a {n} high-water mark of {describe(opts.get(o, 'the default'))}")
        if 5 not in opts or type(opts[5]) is bytes and not opts[5]:
            self.bad("P05", "identity", "the socket is used without an identity of its own")
        if sock.f["socket_type"] != TYPES[self.cfg.transport]:
            self.bad("P05", "socket-type", f"the socket has the type {sock.f['socket_type']}")
        if addr != ADDRESS:
            self.bad("P05", "address", f"the socket is used with the address {describe(addr)}")
        how = "bind" if self.cfg.transport in ("binder", "acceptor", "publisher", "sync_bind") else "connect"
        if kind != how:
            self.bad("P05", "address", f"the socket does {kind} instead of {how}")

    def next(self, vm, i):
        """the arguments of the i-th send"""
        mon = vm.st.mon
        cls = self.classes[(mon["first"] + i * 7) % len(self.classes)]
        m = self.message(vm, cls, f"m{i}")
        to = (ID("peer", f"p{i % 2}"),) if self.cfg.transport == "binder" else ()
        mon["want"] += ((cls.name, to + tuple(self.M.frames_of(m))),)
        mon["asked"] += 1
        return to + (m,)

    def sent(self, vm, frames):
        mon = vm.st.mon
        self.checked("message sent")
        if not mon["want"]:
            return self.bad("P05", "repeated", f"a message is sent that nobody asked for or a second time: {describe(frames)}")
        name, want = mon["want"][0]
        mon["want"] = mon["want"][1:]
        if frames != want:
            rest = [w for w in mon["want"] if w[1] == frames]
            self.bad("P05", "frames", f"{name} leaves as {describe(frames)} instead of {describe(want)}" + (" (another message overtakes it)" if rest else ""))

    def delivered(self, vm, source, m):
        mon = vm.st.mon
        self.checked("message delivered")
        if not mon["got"]:
            return self.bad("P04", "delivered", f"{m.cls.name if type(m) is Obj else describe(m)} is delivered although no well-formed message has arrived, or a second time")
        cls, src, frames = mon["got"][0]
        mon["got"] = mon["got"][1:]
        if type(m) is not Obj or m.cls.name != cls:
            return self.bad("P04", "type", f"a {cls} is delivered as {describe(m)}")
        if source != src:
            self.bad("P04", "source", f"the sender of a {cls} is given as {describe(source)} instead of {describe(src)}")
        if tuple(self.M.frames_of(m)) != frames:
            self.bad("P04", "content", f"a {cls} is delivered with another content")

    # ------------------------------------------------------------------ counters
    def plan(self, vm):
        """which operations the binder performs; after each of them its counters are read, some are repeated many times"""
        arr = self.arrivals(vm)
        bad = [a for a in arr if a[2] is None]
        ops = [("receive", 1, (a,)) for a in arr] + [("send", 1, cls) for cls in self.classes]
        some = [("receive", 1, (a,)) for a in arr if a[2] is not None][::5] + [("receive", 1, (a,)) for a in bad[::6]] + \
            [("send", 1, cls) for cls in self.classes[::5]]
        if self.cfg.operations == 1:
            i = vm.choose(2 * len(ops), "operation")
            plan = ((ops[i][0], 300, ops[i][2]),) if i < len(ops) else (ops[i - len(ops)],) * 2
        else:
            plan = (ops[vm.choose(len(ops), "operation")],)
            for k in range(self.cfg.operations - 1):
                plan += (some[vm.choose(len(some), "operation")],)
        twice = vm.choose(2, "reported in between") == 1
        steps = ()
        for kind, n, what in plan:
            steps += ((kind, n, what),) + ((("report", 1, None),) if twice else ())
        vm.st.mon["plan"] = steps + (("report", 1, None), ("report", 1, None), ("end", 1, None))
        vm.st.mon["counts"] = ((), ())

    def operation(self, vm):
        mon = vm.st.mon
        kind, n, what = mon["plan"][0]
        mon["plan"] = mon["plan"][1:]
        got, sent = mon["counts"]
        if kind == "receive":
            for text, frames, want in what * n:
                if want is not None:
                    mon["got"] += (want,)
                    got += (self.tags[[c.name for c in self.classes].index(want[0])].name,)
                mon["sock"].f["inbox"].x.append(vm.list(frames))
            mon["counts"] = (got, sent)
            return (kind, n)
        if kind == "send":
            m = self.message(vm, what, "m")
            to = (ID("peer", "p"),)
            mon["want"] += ((what.name, to + tuple(self.M.frames_of(m))),)
            sent += (self.tags[self.classes.index(what)].name,)
            mon["counts"] = (got, sent)
            if n > 1:
                mon["plan"] = ((kind, n - 1, what),) + mon["plan"]
            return (kind, to + (m,))
        return (kind, None)

    def counters(self, vm, obj):
        mon = vm.st.mon
        self.checked("counters reported")
        part = vm.subscr(obj, "binder")
        for key, seen in zip(("received", "sent"), mon["counts"]):
            table = {k: v for k, v in vm.subscr(part, key).x.items()}
            for name in sorted({*seen, *(k for k in table if type(k) is str)} | {k for k in table if type(k) is not str}, key=str):
                n = seen.count(name)
                if table.get(name, 0) != n:
                    self.bad("P07", "counter", f"the binder reports {describe(table.get(name, 0))} messages {describe(name)} {key}, there were {n}")

    # ------------------------------------------------------------------ progress
    def waits(self, vm):
        sock = vm.st.mon["sock"]
        return sock is not None and any(s.status == "wait" and s.wait is sock for s in vm.st.strands) and not sock.f["inbox"].x

    def check(self, vm):
        mon = vm.st.mon
        if self.cfg.mode == "receive":
            if self.waits(vm) and mon["got"]:
                self.end_bad("P04", "lost", mon["got"][0][0], f"a well-formed {mon['got'][0][0]} is not delivered")
                mon["got"] = ()
        elif not self.threaded and mon["want"]:
            self.end_bad("P05", "unsent", mon["want"][0][0], f"{mon['want'][0][0]} is not sent")
            mon["want"] = ()

    def died(self, vm, s, err):
        self.crashed(vm, s, err, f"the {self.cfg.transport} transport")

    def on_strand_end(self, vm, s):
        super().on_strand_end(vm, s)
        if self.cfg.mode == "receive" and s.status == "done":
            self.end_bad("P04", "ended", "receive loop", "the receive loop ends")

    def arrivals(self, vm):
        """(text, frames, what must be delivered)"""
        src = ID("peer", "s")
        pre = (src,) if self.cfg.transport == "binder" else ()
        junk = ID("junk", "x")
        out = []
        for n in range(0 if not pre else 1, len(pre) + 1):
            out.append((f"{n} frame(s)", pre[:n], None))
        for t, cls in zip(self.tags, self.classes):
            out.append((f"a {cls.name} without content", pre + (t.value,), None))
            m = self.message(vm, cls, "m")
            fr = tuple(self.M.frames_of(m))
            back = self.M.read(fr)
            out.append((f"a {cls.name}", pre + fr, (cls.name, src if pre else None, tuple(self.M.frames_of(back)) if back is not None else fr)))
        for k in range(4):
            out.append((f"an unknown tag and {k} frame(s)", pre + (junk,) + tuple(ID("junk", f"f{i}") for i in range(k)), None))
        t = self.tags[0].value
        out.append(("an empty tag", pre + (b"", b"x"), None))
        out.append(("a tag at the wrong place", pre + (junk, t, ID("junk", "f")), None))
        out.append(("a longer tag", pre + (t + b"x", ID("junk", "f")), None))
        out.append(("the name of a tag", pre + (self.tags[0].name.encode(), ID("junk", "f")), None))
        if pre:
            out.append(("a sender named like a tag", (t, junk, ID("junk", "f")), None))
            out.append(("a message without sender", (t, ID("junk", "f")), None))
        return out

    def actions(self, vm):
        mon = vm.st.mon
        st = vm.st
        acts = []
        if self.cfg.mode == "receive":
            if self.waits(vm):
                arr = self.arrivals(vm)
                good = [a for a in arr if a[2] is not None]
                both = [(x, good[2]) for x in arr] + [(good[3], x) for x in arr if x[2] is None]
                for batch in [(x,) for x in arr] + both:
                    text = ", then ".join(x[0] for x in batch)

                    def act(vm, batch=batch):
                        mon = vm.st.mon
                        mon["got"] = tuple(x[2] for x in batch if x[2] is not None)
                        s = mon["sock"]
                        s.f["inbox"].x.extend(vm.list(x[1]) for x in batch)
                        vm.notify(s)
                        if self.threaded:
                            self.settle_threads(vm)
                        else:
                            self.run(vm)

                    acts.append((text + " arrives", act))
        if not self.threaded:
            return acts
        for i, s in enumerate(st.strands):
            name = "user" if i == 0 else "I/O"
            if s.status == "ready":
                acts.append((name, lambda vm, i=i: self.explorer.step_strand(i)))
            elif s.status == "wait" and s.timer:
                acts.append((name + " wait ends", lambda vm, i=i: self.resume(vm, i)))
        return acts

    def settle_threads(self, vm):
        n = 0
        while vm.st.ready and n < 200:
            n += 1
            self.explorer.step_strand(vm.st.ready[0])

    def resume(self, vm, i):
        vm.wake(vm.st.strands[i])
        if self.cfg.mode == "receive":
            self.settle_threads(vm)
        else:
            self.explorer.step_strand(i)

    def label(self, vm):
        mon = vm.st.mon
        if self.cfg.mode == "send" and self.threaded:
            if any(s.status == "dead" for s in vm.st.strands):
                return "dead"
            return "" if not mon["want"] and mon["asked"] == self.cfg.messages else "pending"
        return ""

    def conclude(self):
        ex = self.explorer
        if not ex.complete:
            return
        for n in ex.cannot_reach(lambda x: x in ("", "dead")):
            ex.current = n
            ex.label = None
            self.alarm("P05", "unsent", "SyncConnector", "a queued message is never sent", ())
            break
