def chain(*its):
    for it in its:
        for x in it:
            yield x


def _from_iterable(its):
    for it in its:
        for x in it:
            yield x


chain.from_iterable = _from_iterable


def islice(it, *args):
    start, stop, step = 0, None, 1
    if len(args) == 1:
        stop = args[0]
    else:
        start, stop = args[0] or 0, args[1]
        if len(args) > 2:
            step = args[2] or 1
    i = 0
    nxt = start
    if stop is not None and nxt >= stop:
        return
    for x in it:
        if i == nxt:
            yield x
            nxt += step
            if stop is not None and nxt >= stop:
                return
        i += 1


def count(start=0, step=1):
    while True:
        yield start
        start += step


def repeat(x, times=None):
    if times is None:
        while True:
            yield x
    for _ in range(times):
        yield x


def cycle(it):
    items = list(it)
    while items:
        for x in items:
            yield x


def starmap(fn, it):
    for args in it:
        yield fn(*args)


def zip_longest(*its, fillvalue=None):
    lists = [list(i) for i in its]
    n = max([len(x) for x in lists]) if lists else 0
    for i in range(n):
        yield tuple([x[i] if i < len(x) else fillvalue for x in lists])


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x


def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x


def filterfalse(pred, it):
    for x in it:
        if not (pred(x) if pred else x):
            yield x


def product(*its, repeat=1):
    pools = [tuple(i) for i in its] * repeat
    result = [[]]
    for pool in pools:
        result = [x + [y] for x in result for y in pool]
    for p in result:
        yield tuple(p)


def tee(it, n=2):
    items = list(it)
    return tuple([iter(items) for _ in range(n)])


def groupby(it, key=None):
    cur = None
    group = None
    for x in it:
        k = key(x) if key else x
        if group is None or k != cur:
            if group is not None:
                yield cur, iter(group)
            cur, group = k, []
        group.append(x)
    if group is not None:
        yield cur, iter(group)


def accumulate(it, func=None, *, initial=None):
    total = initial
    for x in it:
        total = x if total is None else (func(total, x) if func else total + x)
        yield total


def batched(it, n):
    out = []
    for x in it:
        out.append(x)
        if len(out) == n:
            yield tuple(out)
            out = []
    if out:
        yield tuple(out)


def pairwise(it):
    prev = None
    first = True
    for x in it:
        if not first:
            yield prev, x
        prev = x
        first = False


def compress(data, selectors):
    for d, s in zip(data, selectors):
        if s:
            yield d
