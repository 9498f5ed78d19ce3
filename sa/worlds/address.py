"""Addresses: strings partitioned by scheme, separator, number of colons and kind of port; every constructor argument kind."""
from __future__ import annotations

import itertools

from ..strings import mk, parts_of
from .base import *  # noqa: F401,F403
from .base import BaseWorld, ATOM, Obj, Sym, TERM, GuestError, construct_of, describe, exc_text, site_text

H, H2, ANY, P, X = ATOM("host", "str"), ATOM("host2", "str"), ATOM("any", "str"), ATOM("port", "str"), ATOM("text", "str")
N = ATOM("number", "int")
MOD = "scaled.utility.zmq_config"


class Cfg:
    def __init__(self, **k):
        pass


RESTS = [
    ((H, ":", P), "ok"), ((H, ":", X), "bad"), ((H,), "bad"), ((H, ":"), "bad"), ((":", P), "any"), ((":",), "bad"), ((), "bad"),
    ((H, ":", P, ":", P), "bad"), ((H, ":", H2, ":", P), "bad"), ((H, "::", P), "bad"), ((H, ":", P, "/"), "bad"), ((H, ":", P, ":"), "bad"),
    ((H, "://", H2, ":", P), "bad"), ((H, "://", H2), "bad"), ((H, "/", H2, ":", P), "any"), (("127.0.0.1:", P), "ok"), (("*:", P), "ok"),
    (("localhost:6378",), "ok"), (("localhost:0x10",), "bad"), (("localhost:12.5",), "bad"), (("localhost:12a",), "bad"), (("a.b-c_d:1",), "ok"),
]
LOCAL = [((ANY,), "ok"), ((H,), "ok"), (("/tmp/", H), "ok"), (("/tmp/a:b",), "ok"), ((H, ":", P), "any"), ((H, "://", H2), "ok"),
         (("a/", ANY), "ok"), ((), "any")]


def cases():
    out = []
    for rest, ok in RESTS:
        out.append((("tcp", "://") + rest, ok, ("tcp", rest)))
    for scheme in ("ipc", "inproc"):
        for rest, ok in LOCAL:
            out.append(((scheme, "://") + rest, ok, (scheme, rest)))
    for scheme in ("http", "", "TCP", " tcp", "tcp ", "udp", "zmq", "tcpx", "type"):
        for rest in ((H, ":", P), (H,)):
            out.append(((scheme, "://") + rest, "bad", None))
    for sep in (":/", ":", "//", "", "/:/", "：//"):
        for scheme in ("tcp", "ipc"):
            out.append(((scheme, sep) + (H, ":", P), "bad", None))
            out.append(((scheme, sep) + (H,), "bad", None))
    return out


class AddressWorld(BaseWorld):
    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg
        no = frozenset(":/")
        self.atom_excludes = {H: no, H2: no, P: no, X: no}
        self.atom_kinds = {H: "text", H2: "text", P: "int", X: "text"}

    def prepare(self, vm):
        ns = vm.import_module(MOD).ns
        self.cls, self.type = ns["ZMQConfig"], ns["ZMQType"]
        self.items = [("parse",) + c for c in cases()]
        types = list(self.type.members.values()) + ["tcp", None]
        for t, h, p in itertools.product(types, (H, "/tmp/x", b"h", None), (None, N, 80, "80", 80.5)):
            self.items.append(("make", t, h, p))

    def setup(self, vm):
        vm.st.mon["i"] = vm.choose(len(self.items), "case")

    def label(self, vm):
        return ""

    def force_rel(self, vm, key, op_, bound):
        return None

    def bad(self, rule, construct, text):
        self.alarm("U04", rule, construct, text)

    def env(self, vm):
        i = vm.st.mon["i"]
        if i is None:
            return []
        it = self.items[i]
        if it[0] == "parse":
            s = mk(it[1])
            return [(f"parse {s!r}", lambda vm: self.parse(vm, s, it[2], it[3]))]
        return [(f"make {it[1]!r} {it[2]!r} {it[3]!r}", lambda vm: self.make(vm, *it[1:]))]

    def call(self, vm, fn, *a):
        try:
            return vm.call(fn, a), None
        except GuestError as e:
            return None, e.obj

    def parse(self, vm, s, ok, want):
        vm.st.mon["i"] = None
        r, e = self.call(vm, vm.getattr(self.cls, "from_string"), s)
        self.checked("address parsed")
        if e is not None:
            at = construct_of(e.tb, "from_string")
            if not any(c.name == "ValueError" for c in e.cls.mro):
                return self.bad("error", f"{at} {e.cls.name}", f"the address {s!r} raises {exc_text(e)} instead of ValueError: {site_text(e.tb)}")
            if ok == "ok":
                return self.bad("refused", at, f"the valid address {s!r} is refused: {exc_text(e)}: {site_text(e.tb)}")
            self.checked("address refused")
            return
        if ok == "bad":
            return self.bad("accepted", "from_string", f"the invalid address {s!r} is accepted as {describe(r)}")
        scheme, rest = want
        if type(r) is not Obj or r.f.get("type") is not self.type.members[scheme]:
            return self.bad("type", "from_string", f"the address {s!r} is parsed as {describe(r)}")
        if scheme != "tcp":
            host, port = mk(rest), None
        else:
            host, port = self.cut(rest)
        if r.f["host"] != host or (r.f["port"] is None) != (port is None):
            return self.bad("parts", "from_string", f"the address {s!r} is parsed as host {r.f['host']!r}, port {r.f['port']!r}")
        if port is not None and r.f["port"] != port:
            return self.bad("parts", "from_string", f"the address {s!r} is parsed with the port {r.f['port']!r}")
        self.format(vm, r, s)

    @staticmethod
    def cut(rest):
        parts = list(rest)
        last = parts[-1]
        if type(last) is Sym:
            before = mk(parts[:-1])
            ps = list(parts_of(before))
            ps[-1] = ps[-1][:-1]
            return mk(ps), TERM("int", last)
        h, _, p = last.rpartition(":")
        return mk(parts[:-1] + [h]), int(p)

    @staticmethod
    def digits(p):
        """the decimal form of the number a port text stands for is taken for the text"""
        is_ = lambda x, *ks: type(x) is Sym and x.k == "term" and x.a[0] in ks
        if is_(p, "str") or (is_(p, "fmt", "format") and p.a[2] in ("", "d")):
            if is_(p.a[1], "int"):
                return p.a[1].a[1]
            if p.a[1] is N:
                return TERM("str", N)
        return p

    def format(self, vm, r, s):
        t, e = self.call(vm, vm.getattr(r, "to_address"))
        self.checked("address formatted")
        if e is not None:
            return self.bad("format", construct_of(e.tb, "to_address") + " " + e.cls.name, f"formatting {s!r} raises {exc_text(e)}: {site_text(e.tb)}")
        if type(t) in (str, Sym):
            t = mk([self.digits(p) for p in parts_of(t)])
        if t != s:
            self.bad("format", "to_address", f"the address {s!r} is formatted as {t!r}")

    def make(self, vm, t, h, p):
        vm.st.mon["i"] = None
        r, e = self.call(vm, self.cls, t, h, p)
        self.checked("configuration built")
        tcp = t is self.type.members["tcp"]
        ok = t in self.type.members.values() and type(h) in (str, Sym) and (p in (N, 80) if tcp else p is None)
        what = f"ZMQConfig({t!r}, {h!r}, {p!r})"
        if e is not None:
            if ok:
                self.bad("refused", construct_of(e.tb, "ZMQConfig"), f"{what} is refused: {exc_text(e)}")
            elif e.cls.name not in ("ValueError", "TypeError"):
                self.bad("error", construct_of(e.tb, "ZMQConfig") + " " + e.cls.name, f"{what} raises {exc_text(e)}")
            return
        if not ok:
            return self.bad("accepted", "ZMQConfig", f"the invalid {what} can be built")
        self.format(vm, r, mk([t.value + "://", h] + ([":", str(p) if type(p) is int else TERM("str", p)] if tcp else [])))
