"""A status report the scheduler publishes is compared with the state it is in."""
from __future__ import annotations

from .base import ATOM, ID, Sym, TERM, describe, ratio
from .display import content

ENDS = {"Success": "success", "Failed": "failed", "Canceled": "canceled", "NotFound": "not_found"}
FIGURES = (("agt_cpu", "agent_cpu"), ("agt_rss", "agent_rss"), ("cpu", "cpu"), ("rss", "rss"), ("queued", "queued"), ("lag", "latency"))
FLAGS = ("initialized", "has_task", "task_lock")


def figure(name, w, beat):
    t = "float" if name.endswith("cpu") else "bool" if name in FLAGS else "int"
    return ATOM(f"{name}.{w}.{beat}", t)


def table(v):
    """a JSON object as list of (key, value); None when it is none"""
    if type(v) is tuple and v and v[0] == "$dict":
        return list(v[1:])
    return None


def get(rows, key):
    vs = [v for k, v in rows or () if type(k) is str and k == key]
    return vs[0] if len(vs) == 1 else None


def get_table(rows, key):
    return table(get(rows, key)) or ()


def text(v):
    """the name a text stands for"""
    if type(v) is Sym and v.k == "term" and v.a[0] == "decode":
        return v.a[1]
    if type(v) is Sym and v.k in ("term", "strc") and v.a[0] in ("str", "fmt") and v.a[1:] and type(v.a[1]) is Sym:
        return text(v.a[1])
    return v


def unknown(v):
    return type(v) is Sym and v.k == "unk"


def same(v, expected):
    if unknown(v) and type(expected) is not int:
        return True
    if type(v) is Sym:
        r = ratio(v)
        return r is not None and len(r) == 1 and next(iter(r)) == expected and abs(r[expected] - 1) < 1e-9
    return v == expected and type(v) in (int, float)


def atoms(v, out):
    if type(v) is Sym:
        if v.k == "atom":
            out.append(v)
        else:
            for e in v.a:
                atoms(e, out)
    elif type(v) is tuple:
        for e in v:
            atoms(e, out)
    return out


def compare(world, vm, frames):
    mon = vm.st.mon
    c = content(frames)
    top = table(c)

    def wrong(what, text_):
        world.alarm_report(what, text_)

    if top is None:
        wrong("report", "the status report is not a table")
        return
    world.checked("report compared")

    def number(section, key, expected, what):
        rows = table(get(top, section))
        v = get(rows, key)
        if rows is None or v is None:
            return wrong(f"{section}.{key}", f"the status report does not give {what}")
        if not (unknown(v) and expected >= world.int_cap) and not same(v, expected):
            wrong(f"{section}.{key}", f"the status report gives {describe(v)} as {what}, it is {expected}")

    st = mon["st"]
    number("task_manager", "unassigned", len(world.queued(vm)), "number of tasks that wait for a worker")
    number("task_manager", "running", sum(1 for s in st.values() if s.startswith("@")), "number of tasks given to workers")
    for s, key in ENDS.items() if world.cfg.counts else ():
        n = mon["ends"].get(s, 0)
        if n < world.int_cap:
            number("task_manager", key, n, f"number of tasks that ended with {s}")

    # one row per connected worker
    rows = get(top, "worker_manager")
    if type(rows) is not tuple or not rows or rows[0] != "$list":
        return wrong("worker_manager", "the status report has no list of workers")
    found = {}
    for row in rows[1:]:
        r = table(row)
        w = world.names.get(text(get(r, "worker")))
        if w not in world.cfg.workers:
            wrong("worker_manager", f"the status report has a row for {describe(get(r, 'worker'))}, which is no worker")
        elif w in found:
            wrong("worker_manager", f"the status report has two rows for {w}")
        else:
            found[w] = r
    for w in sorted(set(found) - mon["up"]):
        wrong("worker_manager", f"the status report has a row for {w}, which is not connected")
    for w in sorted(mon["up"] - set(found)):
        wrong("worker_manager", f"the status report has no row for {w}, which is connected")
    for w in sorted(mon["up"] & set(found)):
        r = found[w]
        n = world.count(vm, w)
        for key, want, what in (("sent", n, "number of tasks given to"), ("free", world.cfg.queue_size - n, "number of free slots of")):
            v = get(r, key)
            if not same(v, want):
                wrong("worker." + key, f"the status report gives {describe(v)} as the {what} {w}, it is {want}")
        beat = mon["lastbeat"][w]
        for key, name in FIGURES:
            v = get(r, key)
            if not same(v, figure(name, w, beat)):
                wrong("worker." + key, f"the status report gives {describe(v)} as {key} of {w}, its last heartbeat said {describe(figure(name, w, beat))}")
        flags = [figure(n, w, beat) for n in FLAGS]
        v = get(r, "ITL")
        if type(v) is str:
            ok = len(v) == 3 and all(x in "01" and bool(int(x)) == vm.truth(f) for x, f in zip(v, flags))
        else:
            ok = unknown(v) or atoms(v, []) == flags
        if not ok:
            wrong("worker.ITL", f"the status report gives {describe(v)} as flags of {w} instead of the three of its last heartbeat")
        v = get(r, "last")
        if not unknown(v):
            e = ratio(v)
            ok = e is not None and len(e) == 2 and any(x in mon["beat"][w] and abs(y + 1) < 1e-9 for x, y in e.items()) and \
                any(x in mon.get("now", ()) and abs(y - 1) < 1e-9 for x, y in e.items()) and len({world.clock_of(x) for x in e}) == 1
            if not ok:
                wrong("worker.last", f"the status report gives {describe(v)} as the time since the last heartbeat of {w}")

    def counts(section, expected, what):
        rows = table(get(top, section))
        if rows is None:
            return wrong(section, f"the status report does not give the {what}")
        given = {}
        for k, v in rows:
            k = text(k)
            if k in given:
                wrong(section, f"the status report mentions {describe(k)} twice")
            given[k] = v
        for k in sorted(set(given) | set(expected), key=repr):
            n, v = expected.get(k, 0), given.get(k, 0)
            if not same(v, n):
                wrong(section, f"the status report gives {describe(v)} as the {what} {describe(k)}, it is {n}")

    work = {}
    for t, s in st.items():
        if s == "queued" or s.startswith("@"):
            k = ID("client", world.cli[t])
            work[k] = work.get(k, 0) + 1
    for g, s in mon["gr"].items():
        if s in ("run", "stop"):
            k = ID("client", world.cli[g])
            work[k] = work.get(k, 0) + 1
    counts("client_manager", work, "number of unfinished tasks of client")
    use = {}
    for f in mon["fn"]:
        n = len(world.uses(vm, f))
        if n:
            k = world.fname(f)
            use[k] = use.get(k, 0) + n
    counts("function_manager", use, "number of tasks that use function")

    # the binder's counters (their values: transport.count)
    for way in ("received", "sent"):
        world.checked("counters compared")
        if table(get(get_table(top, "binder"), way)) is None:
            world.alarm_binder(way, f"the status report has no table of messages {way}")

    own = table(get(top, "scheduler"))
    for key, k in (("cpu", 0.01), ("rss", 1)):
        v = get(own, key)
        if not unknown(v):
            e = ratio(v)
            x = next(iter(e)) if e is not None and len(e) == 1 else None
            ok = x is not None and (x.k == "unk" or x.k == "term" and x.a[:3] == ("reading", key, "own") and abs(e[x] - k) < 1e-9)
            if not ok:
                wrong("scheduler." + key, f"the status report gives {describe(v)} as {key} of the scheduler itself")
