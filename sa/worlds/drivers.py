"""Driver programs of the client analyses (guest source text)."""


def functions(*names):
    return "".join(f"def {n}(*a):\n    pass\n" for n in names)


def indent(text, n=1):
    return "".join("    " * n + l + "\n" for l in text.strip("\n").split("\n"))


def call(label, expr, var):
    return f"""
try:
    emit("begin", "{label}")
    {var} = {expr}
    emit("end", "{label}", {var})
except Exception as e:
    {var} = None
    emit("raised", "{label}", e)
"""


def submit(label, fn, n=1, var=None):
    return call(label, f"c.submit({fn}, " + ", ".join(f'"{label}.{i}"' for i in range(n)) + ")", var or label)


def wait(label, expr=None):
    return f"""
try:
    emit("value", "{label}", {expr or label}.result())
except BaseException as e:
    emit("error", "{label}", e)
"""


def cancel(expr):
    return f"\nif {expr} is not None:\n    {expr}.cancel()\n"


DISCONNECT = '\nemit("disconnect", None)\nc.disconnect()\n'


def program(names, *steps):
    return functions(*names) + "def main():\n" + indent("c = connect()") + "".join(indent(s) for s in steps)


def task(label, fn, n=1):
    return {label: (fn, tuple(f"{label}.{i}" for i in range(n)))}


def tasks(*items):
    out = {}
    for label, fn in items:
        out.update(task(label, fn))
    return out


class Raw:
    """data written as source text"""

    def __init__(self, text, test):
        self.text, self.test = text, test

    def __repr__(self):
        return self.text


def twice(label1, label2, g, keys):
    """the same graph and keys given to two calls"""
    src = literal(g)
    out = f"\ngraph = {src}\nkeys = {list(keys)!r}\n"
    for label, var in ((label1, "r"), (label2, "s")):
        out += call(label, "c.get(graph, keys, False)", var) + f'\nemit("given", "{label}", graph, keys)\n'
    return out


def node(v):
    """(function, (arguments)), other than data that is a tuple"""
    return type(v) is tuple and len(v) == 2 and type(v[1]) is tuple


def get(label, graph, keys, block=True, var="r"):
    """graph: node -> (function, args) or data value"""
    return call(label, f"c.get({literal(graph)}, {list(keys)!r}, {block})", var)


def literal(graph):
    return "{" + ", ".join(f'"{k}": ' + (f"({v[0]}, " + "".join(f'"{a}", ' for a in v[1]) + ")" if node(v) else repr(v)) for k, v in graph.items()) + "}"


def graph(label, g, keys):
    nodes = {k: v for k, v in g.items() if node(v)}
    data = {k: v for k, v in g.items() if not node(v)}
    return {label: (nodes, data, tuple(dict.fromkeys(keys)))}


def mapped(label, fn, expr):
    return call(label, f"c.map({fn}, {expr})", "r")


def alike(names, *steps):
    """a program whose functions have equal names"""
    return "".join(f"{n} = lambda *a: None\n" for n in names) + "def main():\n" + indent("c = connect()") + "".join(indent(s) for s in steps)
