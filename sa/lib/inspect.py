from __sa__ import sigparams


class _empty:
    pass


class Parameter:
    POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = 0, 1, 2, 3, 4
    empty = _empty

    def __init__(self, name, kind, *, default=_empty, annotation=_empty):
        self.name = name
        self.kind = kind
        self.default = default
        self.annotation = annotation


class BoundArguments:
    def __init__(self, signature, arguments):
        self.signature = signature
        self.arguments = arguments

    @property
    def args(self):
        out = []
        for p in self.signature.parameters.values():
            if p.kind in (3, 4):
                break
            if p.name not in self.arguments:
                break
            if p.kind == 2:
                out.extend(self.arguments[p.name])
            else:
                out.append(self.arguments[p.name])
        return tuple(out)

    @property
    def kwargs(self):
        out = {}
        started = False
        for p in self.signature.parameters.values():
            if not started:
                if p.kind in (3, 4):
                    started = True
                elif p.name not in self.arguments:
                    started = True
                    continue
            if not started:
                continue
            if p.name not in self.arguments:
                continue
            if p.kind == 4:
                out.update(self.arguments[p.name])
            else:
                out[p.name] = self.arguments[p.name]
        return out

    def apply_defaults(self):
        out = {}
        for p in self.signature.parameters.values():
            if p.name in self.arguments:
                out[p.name] = self.arguments[p.name]
            elif p.default is not _empty:
                out[p.name] = p.default
            elif p.kind == 2:
                out[p.name] = ()
            elif p.kind == 4:
                out[p.name] = {}
        self.arguments = out


class Signature:
    empty = _empty

    def __init__(self, parameters):
        self.parameters = {p.name: p for p in parameters}

    def bind(self, *args, **kwargs):
        return self._bind(args, kwargs, False)

    def bind_partial(self, *args, **kwargs):
        return self._bind(args, kwargs, True)

    def _bind(self, args, kwargs, partial):
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        varkw = None
        for p in self.parameters.values():
            if p.kind == 2:
                if args:
                    out[p.name] = tuple(args)
                args = []
                continue
            if p.kind == 4:
                varkw = p
                continue
            if args and p.kind in (0, 1):
                if p.name in kwargs and p.kind == 1:
                    raise TypeError("multiple values for argument " + p.name)
                out[p.name] = args.pop(0)
                continue
            if p.name in kwargs and p.kind != 0:
                out[p.name] = kwargs.pop(p.name)
                continue
            if p.default is _empty and not partial:
                raise TypeError("missing a required argument: " + p.name)
        if args:
            raise TypeError("too many positional arguments")
        if kwargs:
            if varkw is None:
                raise TypeError("got an unexpected keyword argument")
            out[varkw.name] = kwargs
        return BoundArguments(self, out)


def signature(fn, *, follow_wrapped=True):
    return Signature([Parameter(n, k, default=d if has else _empty) for n, k, has, d in sigparams(fn)])


def getfullargspec(fn):
    raise NotImplementedError


def iscoroutinefunction(f):
    from __sa__ import world
    return False


def isawaitable(o):
    return hasattr(o, "__await__") or iscoroutine(o)


def iscoroutine(o):
    return type(o).__name__ == "coroutine"


def isclass(o):
    return isinstance(o, type)


def isfunction(o):
    return type(o).__name__ == "function"


def ismethod(o):
    return type(o).__name__ == "method"


def getmembers(o, predicate=None):
    return []
