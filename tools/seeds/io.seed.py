Q = '''
import os, sys, asyncio, logging
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
def fail(text):
    print("FAIL:", text); sys.stdout.flush(); os._exit(1)
'''

seed("short-target-count", "P01", "scaled/protocol/python/message.py",
     [("""struct.pack("I", len(self.targets)), *self.targets""", """struct.pack("H", len(self.targets)), *self.targets"""),
      ("""        number_of_targets = struct.unpack("I", data[index])[0]""", """        number_of_targets = struct.unpack("H", data[index])[0]""")],
     "a graph of which more than 65535 keys are requested",
     "the graph cannot be encoded",
     Q + '''
from scaled.protocol.python.message import *
g = GraphTask(b"g", {b"f": (b"n", b"c")}, [str(i).encode() for i in range(70000)], [Task(b"0", b"f", [])])
try:
    if GraphTask.deserialize(list(g.serialize())) != g:
        fail("differs")
except Exception as e:
    fail(repr(e))
print("ok")
''')

seed("empty-ids", "P01", "scaled/protocol/python/message.py",
     ("""        task_ids = list(data[1:])
        assert length == len(task_ids)
""",
      """        task_ids = list(filter(None, data[1:]))
        assert length == len(task_ids)
"""),
     "a list that contains an empty id", "the answer cannot be decoded",
     Q + '''
from scaled.protocol.python.message import *
m = BalanceResponse([b"a", b""])
try:
    if BalanceResponse.deserialize(list(m.serialize())) != m:
        fail("differs")
except Exception as e:
    fail(repr(e))
print("ok")
''')

seed("two-results", "P01", "scaled/protocol/python/message.py",
     ("""        return GraphTaskResult(data[0], TaskStatus(data[1]), data[2:])
""",
      """        return GraphTaskResult(data[0], TaskStatus(data[1]), list(dict.fromkeys(data[2:])))
"""),
     "a graph two of whose requested keys have the same value",
     "equal results are delivered once",
     Q + '''
from scaled.protocol.python.message import *
m = GraphTaskResult(b"a", TaskStatus.Success, [b"x", b"x"])
if GraphTaskResult.deserialize(list(m.serialize())) != m:
    fail("differs")
print("ok")
''')

seed("same-tag", "P02", "scaled/protocol/python/message.py",
     ("""    FunctionNotExists = b"FN"
""", """    FunctionNotExists = b"NW"
"""),
     "a task is submitted whose function the scheduler does not know (any more)",
     "the reply cannot be told from the one for no free worker",
     Q + '''
from scaled.protocol.python.message import *
from scaled.protocol.python.message import TaskEchoStatus
if TaskEcho.deserialize(list(TaskEcho(b"t", TaskEchoStatus.FunctionNotExists).serialize())).status.name != "FunctionNotExists":
    fail("reply changed on the wire")
print("ok")
''')

seed("two-frames", "P04", "scaled/io/async_binder.py",
     ("""        if len(frames) < 3:
""", """        if len(frames) < 2:
"""),
     "somebody sends the scheduler a message that consists of a type tag only",
     "decoding fails and the scheduler's receive loop ends",
     Q + '''
import zmq, zmq.asyncio
from scaled.io.async_binder import AsyncBinder
from scaled.protocol.python.message import *
from scaled.utility.zmq_config import ZMQConfig
async def main():
    b = AsyncBinder(ZMQConfig.from_string("inproc://demo-two-frames"), 1)
    got = []
    async def cb(source, m):
        got.append(m)
    b.register(cb)
    s = b._context.socket(zmq.DEALER)
    s.connect("inproc://demo-two-frames")
    await s.send_multipart([MessageType.TaskCancel.value])
    await s.send_multipart([MessageType.TaskCancel.value, b"t"])
    try:
        for _ in range(2):
            await asyncio.wait_for(b.routine(), 10)
    except Exception as e:
        fail(repr(e))
    if got != [TaskCancel(b"t")]:
        fail(f"delivered {got}")
    print("ok"); sys.stdout.flush(); os._exit(0)
asyncio.run(main())
''')

seed("skips-after-burst", "P05", "scaled/io/sync_connector.py",
     ("""        while not self._send_queue.empty():
            message = self._send_queue.get()
            message_type = PROTOCOL.inverse[type(message)]
            self._socket.send_multipart([message_type.value, *message.serialize()])
""",
      """        messages = []
        while not self._send_queue.empty():
            messages.append(self._send_queue.get())

        for message in messages[:1000]:
            message_type = PROTOCOL.inverse[type(message)]
            self._socket.send_multipart([message_type.value, *message.serialize()])
"""),
     "more than a thousand messages are queued between two rounds of the connector's thread",
     "the messages after the thousandth are not sent",
     Q + '''
import threading, zmq
from scaled.io.sync_connector import SyncConnector
from scaled.protocol.python.message import *
from scaled.utility.zmq_config import ZMQConfig
ctx = zmq.Context()
r = ctx.socket(zmq.ROUTER); r.setsockopt(zmq.RCVHWM, 0); r.bind("inproc://demo-burst")
stop = threading.Event()
c = SyncConnector(stop, ctx, zmq.DEALER, "connect", ZMQConfig.from_string("inproc://demo-burst"), lambda m: None, None, True)
for i in range(1500):
    c.send(TaskCancel(str(i).encode()))
c.start()
r.setsockopt(zmq.RCVTIMEO, 5000)
try:
    for i in range(1500):
        f = r.recv_multipart()
        if f[2] != str(i).encode():
            fail(f"message {i} is {f[2]}")
except zmq.Again:
    fail(f"only {i} messages arrive")
print("ok"); sys.stdout.flush(); os._exit(0)
''')

seed("identity-by-name", "P05", "scaled/io/async_connector.py",
     ("""        self._identity: bytes = (
            f"{os.getpid()}|{socket.gethostname().split('.')[0]}|{uuid.uuid4().bytes.hex()}".encode()
        )

        # set socket option
        self._socket.setsockopt(zmq.IDENTITY, self._identity)
""",
      """        self._identity: bytes = (
            f"{os.getpid()}|{socket.gethostname().split('.')[0]}|{uuid.uuid4().bytes.hex()}".encode()
        )

        # set socket option
        self._socket.setsockopt(zmq.IDENTITY, self._identity[:48])
"""),
     "the identity is longer than 48 bytes (a host name of more than a few letters)",
     "the identity the worker announces in its disconnect request is not the one of its socket",
     Q + '''
import zmq, zmq.asyncio
from scaled.io.async_connector import AsyncConnector
from scaled.utility.zmq_config import ZMQConfig
async def main():
    import socket
    socket.gethostname = lambda: "a-rather-long-host-name"
    c = AsyncConnector(zmq.asyncio.Context(), zmq.DEALER, ZMQConfig.from_string("inproc://demo-identity"), "connect", None)
    if c._socket.getsockopt(zmq.IDENTITY) != c.identity:
        fail("identities differ")
    print("ok"); sys.stdout.flush(); os._exit(0)
asyncio.run(main())
''')

seed("disconnect-when-idle", "P06", "scaled/client.py",
     ("""    def disconnect(self):
        self._stop_event.set()
""",
      """    def disconnect(self):
        self._stop_event.set()
        if not self._task_id_to_future and not self._graph_task_id_to_futures:
            # nothing to cancel, no need to wait for the next round
            self._connector.close()
"""),
     "the client is disconnected when nothing is outstanding, while its I/O thread polls",
     "the user's thread closes the socket under the I/O thread",
     Q + '''
import threading, zmq, time
import scaled.client as cl
touched = []
real = cl.SyncConnector.close
def close(self):
    if threading.current_thread() is not self:
        touched.append(threading.current_thread().name)
    real(self)
cl.SyncConnector.close = close
c = cl.Client("inproc://demo-close")
c.disconnect()
c._connector.join()
if touched:
    fail(f"socket closed by {touched}")
print("ok"); sys.stdout.flush(); os._exit(0)
''')

seed("stale-index-entry", "U02", "scaled/utility/queues/async_priority_queue.py",
     ("""        priority, item = heapq.heappop(self._queue)
        self._locator.pop(item)  # type: ignore
        return priority, item
""",
      """        priority, item = heapq.heappop(self._queue)
        if self._queue:
            self._locator.pop(item)  # type: ignore

        return priority, item
"""),
     "the last entry is handed out and then removed or changed by name",
     "the index still refers to an entry that is no longer in the heap",
     Q + '''
from scaled.utility.queues.async_priority_queue import PriorityQueue
async def main():
    q = PriorityQueue()
    await q.put([1, b"a"])
    await q.get()
    try:
        q.decrease_priority(b"a")
    except KeyError:
        pass
    except ValueError as e:
        fail(f"index designates nothing: {e}")
    else:
        fail("found")
    print("ok")
asyncio.run(main())
''')

seed("head-keeps-link", "U01", "scaled/utility/queues/async_indexed_queue.py",
     ("""        elif prev_node and not next_node:
            assert self._tail is node
            prev_node.next = None
            self._tail = prev_node
""",
      """        elif prev_node and not next_node:
            assert self._tail is node
            self._tail = prev_node
"""),
     "the oldest item is removed by name, and then the item before it",
     "the second removal takes the item for an inner one; the queue hands out removed items",
     Q + '''
from scaled.utility.queues.async_indexed_queue import IndexedQueue
async def main():
    q = IndexedQueue()
    for x in "abc":
        await q.put(x)
    q.remove("a")
    q.remove("b")
    try:
        got = [q.get_nowait() for _ in range(q.qsize())]
    except Exception as e:
        fail(repr(e))
    if got != ["c"]:
        fail(f"handed out {got}")
    print("ok")
asyncio.run(main())
''')

seed("value-moves", "U03", "scaled/utility/one_to_many_dict.py",
     ("""        if value in self._value_to_key and self._value_to_key[value] != key:
            raise ValueError("value has to be unique in OneToManyDict")

        self._value_to_key[value] = key

        if key not in self._key_to_value_set:
            self._key_to_value_set[key] = set()
""",
      """        if key not in self._key_to_value_set:
            self._key_to_value_set[key] = set()

        if value in self._value_to_key and self._value_to_key[value] != key:
            raise ValueError("value has to be unique in OneToManyDict")

        self._value_to_key[value] = key
"""),
     "a value that belongs to another key is added under a new key",
     "the refused addition leaves a key without values",
     Q + '''
from scaled.utility.one_to_many_dict import OneToManyDict
d = OneToManyDict()
d.add(1, "v")
try:
    d.add(2, "v")
except ValueError:
    pass
if d.has_key(2):
    fail("a key without values")
print("ok")
''')

seed("behind-the-port", "U04", "scaled/utility/zmq_config.py",
     ("""            host, port_str = host_port.split(":")
""",
      """            host, _, port_str = host_port.partition(":")
            port_str = port_str.split("/")[0]
"""),
     "an address with something behind the port",
     "what follows the port is dropped silently",
     Q + '''
from scaled.utility.zmq_config import ZMQConfig
try:
    c = ZMQConfig.from_string("tcp://host:1234/queue")
except ValueError:
    pass
else:
    if c.to_address() != "tcp://host:1234/queue":
        fail(f"parsed as {c.to_address()}")
print("ok")
''')

seed("skips-workers", "K02", "scaled/cluster/cluster.py",
     [("""            os.kill(worker.pid, signal.SIGINT)
""", """            os.kill(worker.pid, signal.SIGINT)
            worker.join(self._death_timeout_seconds)
            if not worker.is_alive():
                self._workers.remove(worker)
""")],
     "a cluster of several workers is shut down",
     "removing from the list that is iterated skips every other worker",
     Q + '''
import scaled.cluster.cluster as cc
class W:
    def __init__(self, pid): self.pid = pid; self.up = True
    def is_alive(self): return self.up
    def join(self, t=None): pass
sent = []
class O:
    def __getattr__(self, n): return (lambda p, s: (sent.append(p), [setattr(w, "up", False) for w in ws if w.pid == p])) if n == "kill" else getattr(os, n)
cc.os = O()
c = cc.Cluster(None, 3, 1, 1, 1, 1, 1, "builtin", None)
ws = [W(1), W(2), W(3)]
c._workers = list(ws)
c._Cluster__destroy(2, None)
if sent != [1, 2, 3]:
    fail(f"signalled {sent}")
print("ok")
''')

seed("later-death", "K01", "scaled/cluster/combo.py",
     ("""            heartbeat_interval_seconds=heartbeat_interval_seconds,
            function_retention_seconds=function_retention_seconds,
            death_timeout_seconds=death_timeout_seconds,
""",
      """            heartbeat_interval_seconds=heartbeat_interval_seconds,
            function_retention_seconds=function_retention_seconds,
            death_timeout_seconds=max(death_timeout_seconds, worker_timeout_seconds),
"""),
     "a combination made with a death time-out below the worker time-out",
     "the workers give up later than they were told to",
     Q + '''
import scaled.cluster.combo as co
seen = {}
class C:
    def __init__(self, **k): seen.update(k)
    def start(self): pass
    def terminate(self): pass
co.Cluster = C
class S(C):
    def __init__(self, **k): pass
co.SchedulerProcess = S
co.SchedulerClusterCombo("tcp://127.0.0.1:1", 1, death_timeout_seconds=5, worker_timeout_seconds=50)
if seen["death_timeout_seconds"] != 5:
    fail(f"death_timeout_seconds={seen['death_timeout_seconds']}")
print("ok")
''')


SCREEN = Q + '''
import curses, json
from types import SimpleNamespace
from scaled.entry_points.top import show_status
class Screen:
    def __init__(self, key=-1): self.key, self.cells = key, {}
    def getch(self): return self.key
    def addstr(self, y, x, t, *a): self.cells[y, x] = str(t)
    def clear(self): self.cells = {}
    erase = clear
    def refresh(self, *a): pass
    def getmaxyx(self): return 100, 400
    def row(self, y): return [t for (b, x), t in sorted(self.cells.items()) if b == y]
def worker(name, **k):
    r = dict(worker=name, agt_cpu=0.01, agt_rss=5000, cpu=0.5, rss=9000, free=10, sent=1, queued=0, lag=2000, last=1, ITL="100")
    r.update(k)
    return r
def status(workers, functions=None):
    return SimpleNamespace(data=json.dumps({
        "scheduler": {"cpu": 0.1, "rss": 10000}, "task_manager": {"running": 1, "unassigned": 0},
        "binder": {"sent": {"Task": 1}, "received": {"Task": 1}}, "client_manager": {"client": 1},
        "function_manager": functions or {}, "worker_manager": workers}).encode())
'''

seed("sorted-after-formatting", "K04", "scaled/entry_points/top.py",
     [("""    wm_data = sorted(wm_data, key=lambda item: item[sort_by], reverse=True)

""", ""),
      ("""        row["lag"] = last + format_microseconds(row["lag"])

""", """        row["lag"] = last + format_microseconds(row["lag"])

    wm_data = sorted(wm_data, key=lambda item: item[sort_by], reverse=True)

""")],
     "two workers whose figures have different numbers of digits", "the monitor orders workers by the text of the figures instead of the figures",
     SCREEN + '''
s = Screen()
show_status(status([worker("low", cpu=0.9), worker("high", cpu=1.0)]), s, {"sort_by": "cpu"})
at = {}
for (y, x), t in s.cells.items():
    if t.strip() in ("low", "high"): at[t.strip()] = y
if not at["high"] < at["low"]:
    fail(f"the busier worker is shown below the other one: {at}")
print("ok")
''')

seed("late-mark-column", "K04", "scaled/entry_points/top.py",
     ("""        last = row.pop("last")
        last = f"({format_seconds(last)}) " if last > 5 else ""
        row["lag"] = last + format_microseconds(row["lag"])
""",
      """        last = row.pop("last")
        lag = format_microseconds(row.pop("lag") if last > 5 else row["lag"])
        row["lag"] = f"({format_seconds(last)}) {lag}" if last > 5 else lag
"""),
     "a worker whose last heartbeat is more than five seconds old while the first one's is not", "lag and flags of that worker stand under each other's headings",
     SCREEN + '''
s = Screen()
show_status(status([worker("w1", cpu=0.9, last=1), worker("w2", cpu=0.5, last=8)]), s, {"sort_by": "cpu"})
x = {t.strip(): x for (y, x), t in s.cells.items()}
y = {t.strip(): y for (y, x), t in s.cells.items()}
if s.cells.get((y["w2"], x["ITL"]), "").strip() != "100":
    fail(f"under ITL stands {s.cells.get((y['w2'], x['ITL']))!r}")
print("ok")
''')

seed("more-than-1000s", "K05", "scaled/utility/formatter.py",
     [("""        too_big_sign = "+" if unit == "s" and number > TIME_MODULUS else ""
        return f"{int(number)}{too_big_sign}{unit}"

    raise ValueError("Too big to show the seconds that >1000s")
""",
      """        return f"{int(number)}{unit}"

    return f"{int(number)}+{unit}"
""")],
     "a lag of 1000 seconds or more", "a lag of an hour is shown as 3 seconds",
     Q + '''
from scaled.utility.formatter import format_microseconds
try:
    t = format_microseconds(3600 * 10 ** 6)
except ValueError:
    t = "3600s"
if not t.startswith(("3600", "1000")):
    fail(f"an hour is shown as {t}")
print("ok")
''')

seed("size-by-digits", "K05", "scaled/utility/formatter.py",
     ("""        if unit in {"b", "k"}:
            return f"{int(number)}{unit}"
""",
      """        if unit in {"b", "k"} or number >= 1000:
            return f"{int(number):.3g}{unit}" if unit not in {"b", "k"} else f"{int(number)}{unit}"
"""),
     "a size between 1000 and 1024 of a unit above k", "text of the size has an exponent",
     Q + '''
from scaled.utility.formatter import format_bytes
t = format_bytes(1010 * 2 ** 20)
if float(t[:-1]) != 1010 or "e" in t:
    fail(f"1010 MiB are shown as {t}")
print("ok")
''')

seed("shortcut-latency", "K03", "scaled/entry_points/top.py",
     ("""    ord("d"): "queued",
""", """    ord("d"): "queue",
"""),
     "the key d is pressed while a worker is connected", "the monitor ends with KeyError",
     SCREEN + '''
s = Screen(ord("d"))
try:
    show_status(status([worker("w1")]), s, {"sort_by": "cpu"})
except KeyError as e:
    fail(repr(e))
print("ok")
''')
