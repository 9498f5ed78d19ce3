"""Numbers written for people: an arbitrary non-negative number, over all outcomes of the comparisons the formatter makes."""
from __future__ import annotations

import re

from ..strings import parts_of
from ..values import sym_type
from .base import *  # noqa: F401,F403
from .base import BaseWorld, Sym, GuestError, construct_of, describe, exc_text, ratio, site_text

MOD = "scaled.utility.formatter"
SPEC = re.compile(r"^(?:.?[<>^=])?[+ -]?0?\d*[,_]?(\.\d+)?([dfFgGn%]?)$")
BYTES = {"b": 1, "k": 2 ** 10, "m": 2 ** 20, "g": 2 ** 30, "t": 2 ** 40}
TIMES = {"us": 1, "ms": 10 ** 3, "s": 10 ** 6}
ROUNDING = ("int", "float", "round", "floor", "ceil", "trunc")


class Cfg:
    def __init__(self, **k):
        pass


def figures(text):
    """the numbers a text shows: (sum of multiples of symbols, text that follows, value shown, format), or None when a part is no number"""
    out = []
    for p in flat(text):
        if type(p) is str:
            if out and out[-1][1] is None:
                out[-1] = (out[-1][0], p, *out[-1][2:])
            elif out:
                out[-1] = (out[-1][0], out[-1][1] + p, *out[-1][2:])
            continue
        if out and out[-1][1] is None:
            out[-1] = (out[-1][0], "", *out[-1][2:])
        if type(p) is not Sym or p.k != "term" or p.a[0] not in ("fmt", "str", "repr"):
            out.append((None, None, p, ""))
            continue
        spec = p.a[2] if p.a[0] == "fmt" else ""
        if type(spec) is Sym and spec.k == "strc":
            spec = "".join(e if type(e) is str else "1" for e in parts_of(spec))       # a width
        m = SPEC.match(spec) if type(spec) is str else None
        r = ratio(p.a[1]) if m else None
        if r is not None and m.group(2) == "%":
            out.append(({s: c * 100 for s, c in r.items()}, "%", p.a[1], spec))
        else:
            out.append((r, None, p.a[1], spec))
    return [(r, s or "", v, f) for r, s, v, f in out]


def flat(text):
    """the parts of a text, alignment and padding put aside"""
    if type(text) is str:
        return [text] if text else []
    out = []
    for p in parts_of(text):
        if type(p) is Sym and p.k == "term" and p.a[0] == "str" and len(p.a) > 2 and p.a[2] in ("rjust", "ljust", "center", "strip", "zfill"):
            out += flat(p.a[1])
        elif type(p) is Sym and p.k == "term" and p.a[0] == "fmt" and (type(p.a[1]) is Sym and sym_type(p.a[1]) == "str"):
            out += flat(p.a[1])
        elif type(p) is Sym and p.k == "strc":
            out += flat(p)
        else:
            out.append(p)
    return out


def same(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b))


class NumbersWorld(BaseWorld):
    def __init__(self, cfg):
        super().__init__()
        self.cfg = cfg

    def prepare(self, vm):
        ns = vm.import_module(MOD).ns
        self.items = [("format_bytes", "int"), ("format_bytes", "float"), ("format_microseconds", "int"), ("format_microseconds", "float"),
                      ("format_percentage", "float"), ("format_integer", "int"), ("format_seconds", "int")]
        self.fns = {n: ns[n] for n, _ in self.items}

    def setup(self, vm):
        vm.st.mon["i"] = vm.choose(len(self.items), "formatter")

    def label(self, vm):
        return ""

    def force_rel(self, vm, key, op_, bound):
        return None

    def bad(self, rule, fn, text, site=None):
        self.alarm("K05", rule, fn, text, site)

    def env(self, vm):
        i = vm.st.mon["i"]
        if i is None:
            return []
        fn, kind = self.items[i]
        return [(f"{fn}({kind})", lambda vm: self.shown(vm, fn, kind))]

    def range(self, vm, n):
        """what the comparisons made say about the number: (lower bound, upper bound, whether the latter is excluded)"""
        lo, hi, strict = 0, float("inf"), True
        for k, iv in vm.st.facts.items():
            if k[0] != "rng" or len(k[1]) != 1:
                continue
            s, cc = k[1][0]
            r = ratio(s)
            if r is None or list(r) != [n]:
                continue
            c = r[n] * cc
            slack = 1 if type(s) is Sym and s.k == "term" and s.a[0] in ROUNDING else 0
            if c <= 0:
                continue
            if iv[0] is not None:
                lo = max(lo, iv[0] / c)
            if iv[2] is not None:
                h = (iv[2] + slack) / c
                if h < hi:
                    hi, strict = h, bool(iv[3] or slack)
        return lo, hi, strict

    def shown(self, vm, fn, kind):
        vm.st.mon["i"] = None
        n = Sym("unk", 900000, kind, 0)
        try:
            text = vm.call(self.fns[fn], (n,))
        except GuestError as e:
            lo, hi, _ = self.range(vm, n)
            self.checked(fn)
            limit = {"format_bytes": 2 ** 50, "format_microseconds": 10 ** 9}.get(fn)
            if lo < hi and (limit is None or lo < limit):
                self.bad("error", f"{construct_of(e.obj.tb, fn)} {e.obj.cls.name}", f"{fn} raises {exc_text(e.obj)} for numbers from {lo}: {site_text(e.obj.tb)}")
            return
        lo, hi, strict = self.range(vm, n)
        if lo > hi:
            return
        self.checked(fn)
        what = f"{fn} of a number from {lo} to {hi}"
        if type(text) not in (str, Sym):
            return self.bad("text", fn, f"{what} yields {describe(text)}")
        got = figures(text)
        if fn == "format_seconds" and not got:
            m = re.match(r"^(\d+)\+s$", text)
            if not m or int(m.group(1)) > lo or int(m.group(1)) < 60:
                self.bad("value", fn, f"{what} is shown as {text!r}")
            return
        head = flat(text)
        if len(got) != 1 or got[0][0] is None or list(got[0][0]) != [n] or type(head[0]) is str:
            return self.bad("value", fn, f"{what} is shown as {text!r}")
        r, unit, value, spec = got[0]
        c = r[n]
        if fn == "format_integer":
            if unit or c != 1 or value is not n or "," not in spec or "." in spec:
                self.bad("value", fn, f"{what} is shown as {text!r}")
            return
        if fn == "format_seconds":
            if unit != "s" or c != 1 or value is not n or "." in spec:
                self.bad("value", fn, f"{what} is shown as {text!r}")
            return
        if fn == "format_percentage":
            if unit != "%" or not same(c, 100):
                self.bad("value", fn, f"{what} is shown as {text!r}")
            return
        units = BYTES if fn == "format_bytes" else TIMES
        if unit not in units:
            return self.bad("unit", fn, f"{what} is shown as {text!r}")
        u = units[unit]
        if not same(c * u, 1):
            return self.bad("value", fn, f"{what} is shown as {text!r}, {c * u:g} times the number")
        m = SPEC.match(spec) if spec else None
        if m and m.group(2) in ("g", "G", "n") and hi * c >= 10 ** int((m.group(1) or ".6")[1:]):
            self.bad("digits", fn, f"{what} is shown with an exponent: {text!r}")
        last = list(units)[-1]
        step = 1024 if units is BYTES else 1000
        if unit != last and (hi / u > step or hi / u == step and not strict):
            self.bad("unit", fn, f"{what} is shown in {unit!r}: {text!r}")
        if u > 1000 and lo / u < 1:
            self.bad("unit", fn, f"{what} is shown in {unit!r}: {text!r}")
