from __sa__ import world


class _Namespace:
    pass


class ArgumentError(Exception):
    pass


class HelpFormatter:
    pass


class ArgumentDefaultsHelpFormatter(HelpFormatter):
    pass


class RawTextHelpFormatter(HelpFormatter):
    pass


class RawDescriptionHelpFormatter(HelpFormatter):
    pass


class BooleanOptionalAction:
    pass


class _Action:
    def __init__(self, **k):
        self.k = k


class ArgumentParser:
    def __init__(self, *args, **kwargs):
        self._args = []
        self._defaults = {}

    def add_argument(self, *names, **kwargs):
        dest = kwargs.get("dest")
        if dest is None:
            for n in names:
                if not n.startswith("-"):
                    dest = n
                elif n.startswith("--") and dest is None:
                    dest = n[2:].replace("-", "_")
            if dest is None:
                dest = names[0].lstrip("-").replace("-", "_")
        self._args.append((dest, names, kwargs))
        return _Action(**kwargs)

    def add_mutually_exclusive_group(self, *a, **k):
        return self

    def add_argument_group(self, *a, **k):
        return self

    def set_defaults(self, **k):
        self._defaults.update(k)

    def parse_args(self, args=None, namespace=None):
        ns = namespace or _Namespace()
        for k, v in self._defaults.items():
            setattr(ns, k, v)
        for dest, names, kwargs in self._args:
            setattr(ns, dest, world("argument", dest, names, kwargs))
        return ns

    def parse_known_args(self, args=None, namespace=None):
        return self.parse_args(args, namespace), []

    def error(self, message):
        raise SystemExit(2)

    def print_help(self, file=None):
        pass


Namespace = _Namespace
