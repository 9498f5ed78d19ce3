"""The monitor program shows a status report the scheduler has just published."""
from __future__ import annotations

import re

from .base import *  # noqa: F401,F403
from .base import ATOM, Obj, Sym, GuestError, REPO, construct_of, describe, exc_text, ratio, site_text
from ..values import lin_add, lin_of, sym_type
from .numbers import BYTES, TIMES, figures, flat, same

KEYS = [-1] + list(range(33, 127)) + [-1]
FORMATS = "scaled/utility/formatter.py"


ADDRESS = "ipc:///tmp/monitor"
PATIENCE = ATOM("seconds of patience", "int")


class View:
    """stand-in for terminal and subscription while the monitor program runs"""

    def __init__(self, frames, keys, flip, check):
        self.frames, self.keys, self.flip, self.check = frames, list(keys), flip, check
        self.left = len(self.keys)
        self.places = set()
        self.flipped = False
        self.shown = 0
        self.cells, self.at = [], (0, 0)      # what is on the screen
        self.compared = set()
        self.pressed = []
        self.blocked = False
        self.silent = self.over = False
        self.said = set()

    def emit(self, vm, kind, obj, args):
        if kind == "clear":
            self.cells = []
        elif kind == "move":
            self.at = args
        elif kind == "draw":
            y, x, text = args
            if y is None:
                y, x = self.at
            self.cells = [c for c in self.cells if c[:2] != (y, x)] + [(y, x, text)]
        elif kind == "refresh":
            self.check(vm, self)
        if kind == "use":
            self.listens(vm, obj)
        if kind == "use" and not obj.f["inbox"].x:
            if not self.left:
                self.over = True
                if self.silent:
                    vm.throw(vm.import_module("zmq").ns["Again"])
                vm.throw("KeyboardInterrupt")
            self.left -= 1
            vm.steps = self.steps     # each report has a budget of its own
            self.shown += 1
            obj.f["inbox"].x.append(vm.list(self.frames))
        return None

    def listens(self, vm, obj):
        """the socket the program waits on is one that reports arrive at"""
        f = obj.f
        topics = f["subscriptions"].x
        said = None
        if f["socket_type"] != 2 or f["address"] != ADDRESS:
            said = f"waits on a socket that is not connected to the address it was given ({describe(f['address'])})"
        elif not any(t in ("", b"") for t in topics):
            said = "waits on a socket without having subscribed to the reports"
        elif ratio(f["options"].x.get(27)) != {PATIENCE: 1000.0}:
            said = "does not wait for as long as it was told"
        if said and said not in self.said:
            self.said.add(said)
            self.complain(said)

    def query(self, vm, name, args):
        if name == "getch":
            self.pressed.append(self.keys[(self.shown - 1) % len(self.keys)])
            if self.pressed[-1] < 0 and args[0] and not self.blocked:
                self.blocked = True
                self.wait()
            return self.pressed[-1]
        if name == "screen":
            return (50, 200)
        if name == "argument":
            dest, names, kw = args
            kw = kw.x
            if "timeout" in dest:
                return PATIENCE
            if dest == "address":
                v = ADDRESS
                return vm.call(kw["type"], (v,)) if "type" in kw else v
            return kw.get("default")
        return None

    def force_rel(self, vm, key, op_, bound):
        """numbers of a report are not distinguished: all are small and in order, but for the one compared at the place looked at"""
        f = next((f for f in reversed(vm.cur.frames) if f.code.file.startswith(REPO + "/")), None)
        at = (f.code.file, f.line(), f.code.name) if f is not None else None
        self.places.add(at)
        r = op_ in ("<", "<=", "!=")
        if at == self.flip and not self.flipped:
            self.flipped = True
            return not r
        return r


def shape(v):
    if type(v) is tuple and v and v[0] == "$dict":
        return ("d",) + tuple(sorted((repr(k) if type(k) is str else "?", shape(e)) for k, e in v[1:]))
    if type(v) is tuple and v and v[0] == "$list":
        return ("l",) + tuple(shape(e) for e in v[1:])
    return type(v).__name__


def content(frames):
    for f in frames:
        while type(f) is Sym and f.k == "term":
            if f.a[0] == "dumps":
                return f.a[1]
            f = f.a[1]
    return None


def rows_of(v, kind):
    return list(v[1:]) if type(v) is tuple and v and v[0] == kind else None


def names_in(v, out):
    """what a name consists of"""
    if type(v) is Sym:
        if v.k in ("term", "strc"):
            for e in v.a:
                names_in(e, out)
        else:
            out.add(v)
    elif type(v) is tuple:
        for e in v:
            names_in(e, out)
    return out


def plain(cell):
    ps = flat(cell)
    return "".join(ps).strip() if all(type(p) is str for p in ps) else None


UNITS = (("cpu", {"%": 100.0}), ("rss", {k: 1 / u for k, u in BYTES.items()}), ("lag", {k: 1 / u for k, u in TIMES.items()}), ("last", {"s": 1.0}))


def tells(cell, key, value):
    """whether a text shows the value reported under the key, in a unit of its kind"""
    if type(cell) not in (str, Sym):
        cell = str(cell)
    if type(value) is str or type(value) is bool:
        return plain(cell) == str(value) or (type(value) is str and plain(cell) is not None and value.startswith(plain(cell).rstrip("+")))
    units = next((u for k, u in UNITS if type(key) is str and key.endswith(k)), {"": 1.0})
    r = ratio(value)
    if type(value) in (int, float):
        shown = plain(cell)
        if shown is None:
            return False
        for unit, f in units.items():
            n = shown.removesuffix(unit).replace(",", "").rpartition(" ")[2]
            try:
                if abs(float(n) - value * f) <= 0.5 * 10 ** -len(n.partition(".")[2]) + (1 if "." not in n and type(value) is float else 0):
                    return True
            except ValueError:
                pass
        return False
    if r is None:
        return names_in(value, set()) <= names_in(cell, set())
    for got, text, v, spec in figures(cell):
        if got is None:
            if names_in(value, set()) <= names_in(v, set()):
                return True
            continue
        for unit, f in units.items():
            if text.lstrip(")").strip() == unit or unit and text.startswith(unit):
                if set(got) == set(r) and all(same(got[s], r[s] * f) for s in r):
                    return True
    return False


def named(cell, key):
    """whether a text is the name"""
    if type(key) is str:
        t = plain(cell)
        return t is not None and (t.strip("[]") == key or len(t) > 1 and t.endswith("+") and key.startswith(t[:-1]))
    return bool(names_in(key, set())) and names_in(key, set()) <= names_in(cell, set())


TABLES = (("scheduler",), ("task_manager",), ("binder", "sent"), ("binder", "received"), ("client_manager",), ("function_manager",))


def entry(c, *path):
    for p in path:
        rows = rows_of(c, "$dict")
        c = next((v for k, v in rows or () if k == p), None)
    return c


def screen(world, vm, c, view):
    """what is on the screen when it is shown, compared with the report"""
    cells = view.cells
    if len(cells) < 2:
        return                                   # the terminal is too small
    chosen = next((n for k in view.pressed[::-1] for n in [option(cells, k)] if n is not None), None)
    key = (frozenset(cells), chosen)
    if key in view.compared:
        return
    view.compared.add(key)
    world.checked("screen compared")

    def wrong(what, text):
        world.alarm("K04", "display", what, f"the monitor display {text}")

    grid = {}
    for y, x, t in cells:
        if type(t) is str and not t.strip():
            continue
        grid.setdefault(y, []).append((x, t))

    for path in TABLES:
        table = rows_of(entry(c, *path), "$dict")
        name = ".".join(path)
        if not table:
            continue
        columns = None                           # pairs of columns in which all names and values are found
        for k, v in table:
            here = set()
            for y, row in grid.items():
                for x, t in row:
                    if named(t, k):
                        here |= {(x, x2) for x2, t2 in row if x2 != x and tells(t2, k, v)}
            columns = here if columns is None else columns & here
            if not columns:
                wrong(name, f"does not show the value {describe(v)} of {describe(k)} in {name} next to its name")
                break
    workers = rows_of(entry(c, "worker_manager"), "$list") or []
    tables = [rows_of(w, "$dict") for w in workers]
    seen, place = [], []
    for table in tables:
        found = None
        for y, row in sorted(grid.items(), key=lambda p: repr(p[0])):
            if y in seen:
                continue
            if all(shown(grid, y, row, k, v) for k, v in table):
                found = y
                break
        if found is None:
            w = next((v for k, v in table if k == "worker"), None)
            # the row that shows most of it
            best = max(((sum(shown(grid, y, row, k, v) for k, v in table), repr(y), y) for y, row in grid.items()), default=(0, "", None))[2]
            missing = [k for k, v in table if best is None or not shown(grid, best, grid[best], k, v)]
            wrong("worker_manager", f"does not show {', '.join(map(str, missing))} of worker {describe(w)} in its row under {'these headings' if len(missing) > 1 else 'this heading'}")
        else:
            seen.append(found)
            place.append((found, table))
            world.checked("worker row compared")
    if len(place) == len(tables) and all(type(y) is int for y, _ in place):
        ordered(world, vm, chosen, [t for _, t in sorted(place, key=lambda p: p[0])], wrong)


def option(cells, key):
    """the column a shortcut sorts by, as the legend on the screen says"""
    if not 32 < key < 127:
        return None
    for y, x, t in cells:
        t = plain(t)
        for m in re.finditer(r"(\w+)\[(\S)\]", t or ""):
            if m.group(2) == chr(key):
                return m.group(1)
    return None


def ordered(world, vm, name, rows, wrong):
    """rows: the workers' tables from the top of the screen to the bottom"""
    if name is None:
        return
    for a, b in zip(rows, rows[1:]):
        va, vb = (next((v for k, v in t if k == name), None) for t in (a, b))
        if va is None or vb is None:
            return wrong("sort", f"offers to sort by {name}, which no worker has")
        if va == vb:
            continue
        if type(va) in (int, float) and type(vb) in (int, float):
            if va < vb:
                wrong("sort", f"shows workers with the {name} {va} above {vb} although it sorts by {name}")
            world.checked("sort order compared")
            continue
        if sym_type(va) not in ("int", "float", "num") or sym_type(vb) not in ("int", "float", "num"):
            continue
        d = lin_add(va, vb, -1)
        items, c = lin_of(d)
        key = sorted(items.items(), key=lambda p: repr(p[0]))
        k0 = key[0][1]
        iv = vm.st.facts.get(("rng", tuple((s, cc / k0 if cc % k0 else cc // k0) for s, cc in key)))
        world.checked("sort order compared")
        # the difference of the two, known to be at least (at most) something
        b0 = -c / k0
        ok = iv is not None and (iv[0] is not None and iv[0] >= b0 if k0 > 0 else iv[2] is not None and iv[2] <= b0)
        if not ok:
            wrong("sort", f"shows the worker with {name} {describe(va)} above the one with {describe(vb)} although it sorts by {name}" +
                  ("" if iv is not None else " (it does not compare them)"))


def shown(grid, y, row, key, value):
    """whether the row shows the value under a heading with its name"""
    headings = [x for y2, r in grid.items() if y2 != y for x, t in r if named(t, key)]
    if key == "last" and not headings:
        return True                              # shown before the lag when it is long
    return any(tells(t, key, value) for x, t in row if x in headings)


def show(world, vm, frames):
    c = content(frames)
    k = shape(c) if c is not None else repr(frames)
    if k in world.shown:
        return
    main = vm.getattr(vm.import_module("scaled.entry_points.top"), "main")
    facts = dict(vm.st.facts)

    def run(keys, flip=None, silent=False):
        world.view = view = View(frames, keys, flip, lambda vm, v: screen(world, vm, c, v))
        view.silent = silent
        view.complain = lambda text: world.alarm("K03", "display", "socket", f"the monitor program {text}")
        view.wait = lambda: world.alarm("K03", "display", "getch", "the monitor display waits for a key instead of showing the reports that arrive")
        view.steps = vm.steps
        try:
            vm.call(main, ())
        except GuestError as e:
            world.view = None
            world.checked("report shown")
            if silent and view.over and e.obj.cls.name == "TimeoutError":
                return world.checked("time-out")
            at = construct_of(e.obj.tb, "main")
            for p in ("K03", "K04"):
                world.alarm(p, "display", f"{at} {e.obj.cls.name}", f"the monitor display fails with {exc_text(e.obj)} on a published report: {site_text(e.obj.tb)}", e.obj.tb)
            return view
        finally:
            world.view = None
            vm.st.facts.clear()
            vm.st.facts.update(facts)
        if view.left or view.shown != len(view.keys):
            world.alarm("K03", "display", "main", f"the monitor display ends after {view.shown} reports")
        for _ in view.keys:
            world.checked("report shown")
        return view

    if not world.shown and run((-1,), None, True) is not None:
        world.alarm("K03", "display", "timeout", "the monitor program does not fail with TimeoutError when no report arrives in time")
    places = set(run(KEYS).places)
    done = set()
    while places - done:
        p = sorted(places - done, key=repr)[0]
        done.add(p)
        places |= run((-1, -1), p).places
    world.shown.add(k)
