"""Structured symbolic strings: concatenations of constants and atoms."""
from __future__ import annotations

from .values import *  # noqa: F401,F403
from .values import sym_type


def parts_of(v):
    if type(v) is str:
        return (v,) if v else ()
    if v.k == "strc":
        return v.a[0]
    return (v,)


def mk(parts):
    out = []
    for p in parts:
        if type(p) is str and out and type(out[-1]) is str:
            out[-1] += p
        elif p != "":
            out.append(p)
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return Sym("strc", tuple(out))


def concat(vm, parts):
    out = []
    for p in parts:
        if type(p) is Sym and p.k not in ("strc",) and sym_type(p) not in ("str", "obj"):
            out.append(TERM("str", p))
        elif type(p) is Obj:
            out.append(TERM("str", repr(p.cls)))
        else:
            out.extend(parts_of(p) if type(p) in (str, Sym) else [str(p)])
    return mk(out)


def excluded(vm, atom, s):
    """strings the world promises an atom never contains"""
    w = vm.world
    ex = getattr(w, "atom_excludes", None) if w is not None else None
    if not ex:
        return False
    e = ex.get(atom)
    if e is None:
        return False
    return any(ch in e for ch in s)


def free_of(vm, v, sub):
    """True when v certainly does not contain sub anywhere (also across borders)"""
    for p in parts_of(v):
        if type(p) is str:
            if sub in p:
                return False
        elif not excluded(vm, p, sub):
            return False
    # across borders: with single-character exclusion an occurrence would need its characters in constants
    ps = parts_of(v)
    txt = "".join(p if type(p) is str else "\0" for p in ps)
    return sub not in txt


def str_contains(vm, c, v):
    if sym_type(c) != "str" and c.k != "strc":
        return None
    if type(v) is not str:
        return None
    for p in parts_of(c):
        if type(p) is str and v in p:
            return True
    if free_of(vm, c, v):
        return False
    if c.k == "strc" or c.k == "atom":
        ex = getattr(vm.world, "atom_excludes", None) if vm.world is not None else None
        if ex is not None and all(type(p) is str or p in ex for p in parts_of(c)):
            return None
    return None


def find_first(vm, s, sep):
    """(before, after) around the first occurrence of sep, or None (no occurrence), or False (unknown)"""
    ps = parts_of(s)
    before = []
    for i, p in enumerate(ps):
        if type(p) is str:
            j = p.find(sep)
            if j >= 0:
                return mk(before + [p[:j]]), mk([p[j + len(sep):]] + list(ps[i + 1:]))
            before.append(p)
        else:
            if not excluded(vm, p, sep):
                return False
            before.append(p)
    return None


def find_last(vm, s, sep):
    ps = parts_of(s)
    for i in range(len(ps) - 1, -1, -1):
        p = ps[i]
        if type(p) is str:
            j = p.rfind(sep)
            if j >= 0:
                return mk(list(ps[:i]) + [p[:j]]), mk([p[j + len(sep):]] + list(ps[i + 1:]))
        elif not excluded(vm, p, sep):
            return False
    return None


def str_method(vm, name, a, k):
    s = a[0]
    if name == "encode":
        if type(s) is Sym and s.k == "term" and s.a[0] == "decode":
            return s.a[1]
        if sym_type(s) != "str":
            pass
        return TERM("encode", s)
    if name == "decode":
        if type(s) is Sym and s.k == "term" and s.a[0] == "encode":
            return s.a[1]
        return TERM("decode", s)
    if name == "hex":
        return TERM("hex", s)
    if type(s) in (Sym, str) and (type(s) is str or sym_type(s) in ("str", "obj")):
        sep = a[1] if len(a) > 1 else None
        mx = a[2] if len(a) > 2 else k.get("maxsplit", -1)
        if name in ("split", "rsplit") and type(sep) is str and type(mx) is int:
            out = []
            rest = s
            fn = find_first if name == "split" else find_last
            while mx != 0:
                r = fn(vm, rest, sep)
                if r is False:
                    return unk_split(vm, rest, out, name)
                if r is None:
                    break
                if name == "split":
                    out.append(r[0])
                    rest = r[1]
                else:
                    out.insert(0, r[1])
                    rest = r[0]
                mx -= 1
            if name == "split":
                out.append(rest)
            else:
                out.insert(0, rest)
            return vm.list(out)
        if name in ("partition", "rpartition") and type(sep) is str:
            r = (find_first if name == "partition" else find_last)(vm, s, sep)
            if r is None:
                return (s, "", "") if name == "partition" else ("", "", s)
            if r is not False:
                return (r[0], sep, r[1])
            return (vm.unk("str"), sep, vm.unk("str"))
        if name in ("startswith", "endswith") and type(a[1]) is str:
            ps = parts_of(s)
            p = ps[0] if name == "startswith" else ps[-1]
            if type(p) is str and (len(p) >= len(a[1]) or not getattr(p, name)(a[1][:len(p)] if name == "startswith" else a[1][-len(p):])):
                return getattr(p, name)(a[1]) if len(p) >= len(a[1]) else False
            return vm.fact(("strm", name, s, a[1]), f"{s!r}.{name}({a[1]!r})") == 0
        if name in ("removeprefix", "removesuffix") and type(a[1]) is str:
            ps = list(parts_of(s))
            i = 0 if name == "removeprefix" else -1
            if type(ps[i]) is str and len(ps[i]) >= len(a[1]):
                ps[i] = getattr(ps[i], name)(a[1])
                return mk(ps)
        if name == "count" and type(a[1]) is str:
            n = 0
            rest = s
            while True:
                r = find_first(vm, rest, a[1])
                if r is None:
                    return n
                if r is False:
                    return vm.unk("int")
                n += 1
                rest = r[1]
        if name in ("find", "index") and type(a[1]) is str:
            r = find_first(vm, s, a[1])
            if r is None:
                if name == "index":
                    vm.throw("ValueError", "substring not found")
                return -1
            if r is not False:
                return len(r[0]) if type(r[0]) is str else TERM("len", r[0])
        if name in ("isdigit", "isnumeric", "isdecimal", "isalpha", "isalnum", "isidentifier", "isupper", "islower", "isascii",
                    "isspace", "isprintable"):
            if s.k == "strc":
                ok = all(getattr(p, name)() if type(p) is str else str_int_ok(vm, p) for p in parts_of(s))
                return ok
            if name in ("isdigit", "isdecimal", "isnumeric"):
                r = str_is_int(vm, s)
                if r is not None:
                    return r
            return vm.fact(("strm", name, s), f"{s!r}.{name}()") == 0
        if name in ("lower", "upper", "strip", "lstrip", "rstrip", "title", "casefold", "capitalize"):
            if s.k == "strc":
                ps = list(parts_of(s))
                if "strip" in name:
                    if name != "rstrip" and type(ps[0]) is str:
                        ps[0] = ps[0].lstrip(*a[1:])
                    if name != "lstrip" and type(ps[-1]) is str:
                        ps[-1] = ps[-1].rstrip(*a[1:])
                    return mk(ps)
                return mk([getattr(p, name)() if type(p) is str else TERM("str", p, name) for p in ps])
            if "strip" in name:
                return s
            return TERM("str", s, name)
    if name in ("startswith", "endswith", "isdigit"):
        return vm.fact(("strm", name, s, a[1:]), f"{s!r}.{name}{a[1:]!r}") == 0
    if name in ("split", "rsplit", "splitlines"):
        return vm.list([TERM("str", s, name)])
    if name in ("find", "index", "count", "rfind", "rindex"):
        return vm.unk("int")
    return TERM("str" if type(a[0]) is str or sym_type(a[0]) == "str" else "slice", s, name, *[x for x in a[1:] if type(x) in (str, bytes, int, Sym)])


def unk_split(vm, rest, out, name):
    out.append(rest)
    return vm.list(out)


def str_is_int(vm, s):
    w = vm.world
    kinds = getattr(w, "atom_kinds", None) if w is not None else None
    if kinds is None:
        return None
    k = kinds.get(s)
    if k == "int":
        return True
    if k in ("text", "host"):
        return False
    return None


def str_int_ok(vm, p):
    return bool(str_is_int(vm, p))


def str_to_int(vm, s):
    """int(s) of a symbolic string"""
    if sym_type(s) not in ("str", "obj") or sym_type(s) == "obj" and s.k == "term":
        return None
    if s.k == "term" and s.a[0] == "str" and len(s.a) == 2:
        return s.a[1]
    r = str_is_int(vm, s)
    if r is None:
        if s.k == "strc":
            ps = parts_of(s)
            if any(type(p) is str and not p.strip().lstrip("+-").replace("_", "").isdigit() for p in ps):
                vm.throw("ValueError", "invalid literal for int()")
        r = vm.fact(("isint", s), f"{s!r} is an integer literal") == 0
    if not r:
        vm.throw("ValueError", "invalid literal for int()")
    return TERM("int", s)
