"""functools.cache, lru_cache and singledispatch's relatives: results are kept"""


def lru_cache(maxsize=128, typed=False):
    def deco(fn):
        table = {}

        def wrapper(*args, **kwargs):
            key = (args, tuple(sorted(kwargs.items()))) if kwargs else args
            hit = table.get(key, table)
            if hit is not table:
                return hit
            result = fn(*args, **kwargs)
            if type(maxsize) is int and len(table) >= maxsize:
                for k in list(table)[:1]:
                    del table[k]
            if maxsize != 0:
                table[key] = result
            return result

        wrapper.__wrapped__ = fn
        wrapper.__name__ = fn.__name__
        wrapper.cache_clear = table.clear
        return wrapper

    if callable(maxsize):
        fn, maxsize = maxsize, 128
        return deco(fn)
    return deco


def cache(fn):
    return lru_cache(None)(fn)
