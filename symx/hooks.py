"""
Runtime support for instrumented code: every hook has the meaning of the python
operation it replaces and takes the native path unless a symbolic value (or a
dict that may hold symbolic keys) is involved.
"""

from __future__ import annotations

import builtins
import copy
import functools
import inspect
import io
import json
import math
import operator
import os
import pathlib
import re
import sys
import types
import urllib.parse

import z3

from . import core, models
from .core import (
    SymBool,
    SymBytes,
    SymInt,
    SymReal,
    SymStr,
    Unsupported,
    b_and,
    b_not,
    b_or,
    chars_of,
    is_sym,
    mkstr,
)

FUNCS: set[str] = set()  # functions of the code under test executed symbolically
SHADOW: dict = {}  # real stdlib function -> instrumented copy


def sx_enter(qual):
    FUNCS.add(qual)


# ---------------------------------------------------------------------------
# dict / set semantics with symbolic keys
# ---------------------------------------------------------------------------

_MISS = object()


def _find_key(d, key):
    """the key object of d equal to `key` (forks), or _MISS"""
    if not is_sym(key):
        if not core.CUR.flag_symkeys:
            return key if key in d else _MISS
        try:
            if key in d and not any(is_sym(k) for k in d):
                return key
        except TypeError:
            return key if key in d else _MISS  # unhashable: raises natively
        for k in d:
            if k is key or (not is_sym(k) and k == key):
                return k
        if not isinstance(key, (str, int, bool)):
            return _MISS
        for k in d:
            if is_sym(k):
                r = core.deep_eq(k, key) if not isinstance(key, bool) else (k == key)
                if r is not NotImplemented and r:
                    return k
        return _MISS
    for k in d:
        if k is key:
            return k
    for k in d:
        if type(k) is type(key) or isinstance(k, (str, int)):
            if core._kind(k) != core._kind(key):
                continue
            if k == key:
                return k
    return _MISS


def _involved(d, key):
    cx = core.CUR
    return cx is not None and (is_sym(key) or cx.flag_symkeys)


def _note_key(key):
    if is_sym(key):
        core.CUR.flag_symkeys = True


def sx_getitem(o, k):
    if core.CUR is None:
        return o[k]
    t = type(o)
    if t is dict or isinstance(o, dict):
        if _involved(o, k):
            r = _find_key(o, k)
            if r is _MISS:
                if hasattr(t, "__missing__"):
                    _note_key(k)
                    return o[k]
                raise KeyError(k if not is_sym(k) else "<sym>")
            return o[r]
    elif is_sym(k) and not isinstance(o, (list, tuple, str)):
        try:
            return o[k]
        except (KeyError, IndexError):
            raise
    return o[k]


def sx_setitem(v, o, k):
    if core.CUR is not None and isinstance(o, dict) and _involved(o, k):
        r = _find_key(o, k)
        if r is _MISS:
            _note_key(k)
            o[k] = v
        else:
            o[r] = v
        return
    o[k] = v


def sx_delitem(o, k):
    if core.CUR is not None and isinstance(o, dict) and _involved(o, k):
        r = _find_key(o, k)
        if r is _MISS:
            raise KeyError("<sym>")
        del o[r]
        return
    del o[k]


def dict_from_pairs(pairs):
    d = {}
    for p in pairs:
        k, v = p
        sx_setitem(v, d, k)
    return d


def sx_dict(*items):
    d = {}
    for it in items:
        if len(it) == 1:
            m = it[0]
            for k in m.keys():
                sx_setitem(m[k], d, k)
        else:
            sx_setitem(it[1], d, it[0])
    return d


def sx_dictcomp(pairs):
    if core.CUR is None:
        return dict(pairs)
    return dict_from_pairs(pairs)


def sx_set(items):
    if core.CUR is None:
        return set(items)
    s = set()
    for x in items:
        set_add(s, x)
    return s


def set_add(s, x):
    if is_sym(x) or core.CUR.flag_symkeys:
        if _find_key(s, x) is _MISS:
            _note_key(x)
            s.add(x)
    else:
        s.add(x)


def sx_or(a, b):
    if core.CUR is not None:
        if isinstance(a, dict) and isinstance(b, dict) and core.CUR.flag_symkeys:
            d = dict(a)
            for k, v in b.items():
                sx_setitem(v, d, k)
            return d
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and core.CUR.flag_symkeys:
            return sx_set(list(a) + list(b))
    return a | b


def sx_ior(a, b):
    if core.CUR is not None and core.CUR.flag_symkeys:
        if isinstance(a, dict):
            items = list(b.items()) if isinstance(b, dict) else list(b)
            for k, v in items:
                sx_setitem(v, a, k)
            return a
        if isinstance(a, set):
            for x in list(b):
                set_add(a, x)
            return a
    a |= b
    return a


def sx_and(a, b):
    if core.CUR is not None and core.CUR.flag_symkeys and isinstance(a, (set, frozenset)):
        return set(x for x in a if _find_key(b, x) is not _MISS)
    return a & b


def sx_sub(a, b):
    if core.CUR is not None and core.CUR.flag_symkeys and isinstance(a, (set, frozenset)):
        return set(x for x in a if _find_key(b, x) is _MISS)
    return a - b


def sx_mod(a, b):
    if core.CUR is not None and isinstance(a, str) and (has_sym(b) or is_sym(a)):
        return models.percent_format(a, b)
    return a % b


# ---------------------------------------------------------------------------
# membership, identity
# ---------------------------------------------------------------------------


def contains(x, c):
    cx = core.CUR
    if cx is None:
        return x in c
    if isinstance(c, str):
        if is_sym(x) or is_sym(c):
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            return SymStr(chars_of(c)).sx_contains(x)
        return x in c
    if isinstance(c, (dict, set, frozenset)) or isinstance(
        c, (type({}.keys()), type(os.environ))
    ):
        if is_sym(x) or cx.flag_symkeys:
            return _sym_member(x, list(c))
        return x in c
    if type(c) in (list, tuple):
        if is_sym(x) or any(is_sym(y) for y in c):
            return _sym_member(x, c)
        return x in c
    if type(c) is range and type(x) is SymInt:
        if not len_range(c):
            return False
        lo, hi = (c[0], c[-1]) if c.step > 0 else (c[-1], c[0])
        r = b_and(x >= lo, x <= hi)
        return r if abs(c.step) == 1 else b_and(r, (x - lo) % abs(c.step) == 0)
    return x in c


def len_range(c):
    return c.start < c.stop if c.step > 0 else c.start > c.stop


def _sym_member(x, items):
    rs = []
    for y in items:
        if y is x:
            return True
        if is_sym(x) or is_sym(y):
            kx, ky = core._kind(x), core._kind(y)
            if kx != ky and not ({kx, ky} <= {"int", "bool", "float"}):
                continue
        r = x == y
        if r is NotImplemented:
            continue
        if type(r) is not SymBool:
            if r:
                return True
            continue
        rs.append(r)
    return b_or(*rs)


def sx_in(x, c):
    return contains(x, c)


def sx_notin(x, c):
    return b_not(contains(x, c))


def sx_is(a, b):
    if type(a) is SymBool or type(b) is SymBool:
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return False
    return a is b


def sx_isnot(a, b):
    return b_not(sx_is(a, b))


# ---------------------------------------------------------------------------
# strings
# ---------------------------------------------------------------------------


def to_text(v):
    """str(v)"""
    t = type(v)
    if t is SymStr:
        return v
    if t is SymInt:
        return core.int_to_str(v)
    if t is SymBool:
        return "True" if v else "False"
    if t is SymReal:
        raise Unsupported("str() of a symbolic float")
    if t is models.JsonText:
        return v
    f = getattr(t, "__str__", None)
    try:
        return str(v)
    except TypeError as e:
        if "returned non-string" in str(e):
            m = t.__str__ if t.__str__ is not object.__str__ else t.__repr__
            return m(v)
        raise


def to_repr(v):
    t = type(v)
    if t is SymStr:
        return "'" + v + "'"
    if t is SymInt:
        return core.int_to_str(v)
    if t is SymBool:
        return "True" if v else "False"
    if t is SymReal:
        raise Unsupported("repr of a symbolic float")
    if t in (list, tuple, dict) and has_sym(v):
        return "<sym-container>"
    try:
        return repr(v)
    except TypeError as e:
        if "returned non-string" in str(e):
            return t.__repr__(v)
        raise


def fmt_value(v, conv, spec):
    if conv == 114:
        v = to_repr(v)
    elif conv == 115:
        v = to_text(v)
    elif conv == 97:
        v = to_repr(v)
    if is_sym(spec):
        raise Unsupported("symbolic format spec")
    if is_sym(v):
        if spec == "":
            return to_text(v)
        if type(v) is SymInt:
            return models.format_int(v, spec)
        if type(v) is SymStr and spec in ("s",):
            return v
        raise Unsupported(f"format spec {spec!r} on a symbolic value")
    if spec == "" and not isinstance(v, (str, int, float)):
        if type(v) in (list, tuple, dict, set) and has_sym(v):
            return "<sym-container>"
        if type(v).__format__ is object.__format__:
            return to_text(v)
    return format(v, spec)


def sx_fstr(*parts):
    cx = core.CUR
    if cx is None:
        return "".join(
            p if type(p) is str else _native_fmt(p) for p in parts
        )
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            out.append(fmt_value(*p))
    for o in out:
        if type(o) is SymStr:
            return core.sx_join("", out)
        if type(o) is models.JsonText:
            if len([x for x in out if x != ""]) == 1:
                return o
            raise Unsupported("JSON text embedded in a string")
    return "".join(out)


def _native_fmt(p):
    v, conv, spec = p
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def sx_msg(*parts):
    """f-string inside raise/assert: text of the message is not observed"""
    if core.CUR is None:
        return sx_fstr(*parts)
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v = p[0]
            if type(v) in (str, int, bool, type(None)):
                out.append(_native_fmt(p))
            else:
                out.append("<...>")
    return "".join(out)


def has_sym(x, depth=4):
    if is_sym(x):
        return True
    t = type(x)
    if t is models.JsonText or t is SymBytes:
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if t is dict:
        return any(has_sym(k, 0) or has_sym(v, depth - 1) for k, v in x.items())
    if isinstance(x, tuple):
        return any(has_sym(y, depth - 1) for y in x)
    return False


# ---------------------------------------------------------------------------
# calls
# ---------------------------------------------------------------------------


def _wrap_callable(f):
    """builtins handed to map/filter/sorted as callbacks go through sx_call"""
    if isinstance(f, (types.BuiltinFunctionType, types.MethodDescriptorType, type)) or f in SHADOW_SAFE(f):
        return lambda *a, **k: sx_call(f, *a, **k)
    return f


def SHADOW_SAFE(f):
    try:
        return (f,) if f in SHADOW else ()
    except TypeError:
        return ()


def _c_str(f, a, k):
    if len(a) == 1 and not k:
        return to_text(a[0])
    if len(a) >= 2 and type(a[0]) is SymBytes:
        return a[0].s
    return f(*a, **k)


def _c_int(f, a, k):
    if len(a) == 1 and not k:
        v = a[0]
        t = type(v)
        if t is SymInt:
            return v
        if t is SymStr:
            return core.str_to_int(v)
        if t is SymBool:
            return core.mkint(core.zi(v))
        if t is SymReal:
            return v.__trunc__()
    return f(*a, **k)


def _c_float(f, a, k):
    if len(a) == 1:
        if type(a[0]) is SymReal:
            return a[0]
        if type(a[0]) is SymInt:
            return SymReal(z3.ToReal(a[0].e))
        if is_sym(a[0]):
            raise Unsupported("float() of a symbolic value")
    return f(*a, **k)


def _c_bool(f, a, k):
    if len(a) == 1:
        if type(a[0]) is SymBool:
            return a[0]
        if type(a[0]) is SymInt:
            return core.mkbool(a[0].e != 0)
    return f(*a, **k)


def _c_dict(f, a, k):
    d = {}
    if a:
        m = a[0]
        if hasattr(m, "keys"):
            if type(m) is dict and not core.CUR.flag_symkeys:
                d = dict(m)
            else:
                for x in m.keys():
                    sx_setitem(m[x], d, x)
        else:
            d = dict_from_pairs(list(m))
    for x, v in k.items():
        sx_setitem(v, d, x)
    return d


def _c_set(f, a, k):
    s = sx_set(list(a[0])) if a else set()
    return s if f is set else frozenset(s)


def _c_type(f, a, k):
    if len(a) == 1 and (is_sym(a[0]) or type(a[0]) in (models.JsonText, SymBytes)):
        return a[0].__class__
    return f(*a, **k)


def _c_path(f, a, k):
    if any(is_sym(x) or type(x) is models.SymPath for x in a):
        return models.SymPath.make(a)
    return f(*a, **k)


def _c_tuple(f, a, k):
    return f(*a, **k)


CLASSES = {
    str: _c_str,
    int: _c_int,
    float: _c_float,
    bool: _c_bool,
    dict: _c_dict,
    set: _c_set,
    frozenset: _c_set,
    type: _c_type,
    pathlib.Path: _c_path,
    pathlib.PurePath: _c_path,
    pathlib.PosixPath: _c_path,
    pathlib.PurePosixPath: _c_path,
}


def _f_len(f, a, k):
    x = a[0]
    if type(x) in (SymBytes,):
        raise Unsupported("len of symbolic bytes")
    return f(*a, **k)


def _f_repr(f, a, k):
    return to_repr(a[0])


def _f_ord(f, a, k):
    x = a[0]
    if type(x) is SymStr:
        if len(x.c) != 1:
            raise TypeError("ord() expected a character")
        return core.mkint(x.c[0]) if type(x.c[0]) is not int else x.c[0]
    return f(*a, **k)


def _f_chr(f, a, k):
    if type(a[0]) is SymInt:
        return mkstr((a[0].e,))
    return f(*a, **k)


def _f_hof(f, a, k):
    a = list(a)
    if a:
        a[0] = _wrap_callable(a[0])
    return f(*a, **k)


def _f_sorted(f, a, k):
    if k.get("key") is not None:
        k = dict(k, key=_wrap_callable(k["key"]))
    return f(*a, **k)


def _f_getattr(f, a, k):
    if len(a) >= 2 and is_sym(a[1]):
        raise Unsupported("attribute access by a symbolic name")
    return f(*a, **k)


def _f_format(f, a, k):
    return fmt_value(a[0], -1, a[1] if len(a) > 1 else "")


def _f_isclose(f, a, k):
    return f(*a, **k)


def _f_hash(f, a, k):
    if has_sym(a[0]):
        raise Unsupported("hash of a symbolic value")
    return f(*a, **k)


def _f_fspath(f, a, k):
    if type(a[0]) in (SymStr,):
        return a[0]
    if type(a[0]) is models.SymPath:
        return str_of_path(a[0])
    return f(*a, **k)


def str_of_path(p):
    return p.as_posix()


BUILTINS = {
    len: _f_len,
    repr: _f_repr,
    ord: _f_ord,
    chr: _f_chr,
    sorted: _f_sorted,
    max: _f_sorted,
    min: _f_sorted,
    getattr: _f_getattr,
    setattr: _f_getattr,
    hasattr: _f_getattr,
    format: _f_format,
    hash: _f_hash,
    os.fspath: _f_fspath,
    open: lambda f, a, k: models.open_call(f, a, k),
    print: lambda f, a, k: models.PRINT(*a, **k) if models.PRINT is not None and not k.get("file") else _foreign(f, a, k),
    os.listdir: lambda f, a, k: models.listdir_call(f, a, k),
}

HOFS = {map, filter}


def _list_index(lst, a):
    for i, y in enumerate(lst):
        if y is a[0] or _truth_eq(y, a[0]):
            return i
    raise ValueError("x not in list")


def _truth_eq(a, b):
    if is_sym(a) or is_sym(b):
        if core._kind(a) != core._kind(b):
            return False
    r = a == b
    return False if r is NotImplemented else bool(r)


def _materialise(a):
    """Arguments that can be read only once, as lists: they're looked at first."""
    return tuple(
        list(x) if hasattr(x, "__next__") and hasattr(x, "__iter__") else x for x in a
    )


def _m_dict(d, name, f, a, k):
    cx = core.CUR
    if name in ("update", "fromkeys"):
        a = _materialise(a)
    key = a[0] if a else None
    if not (cx.flag_symkeys or is_sym(key)):
        if name == "update" and a and has_sym_keys(a[0]):
            pass
        elif name == "fromkeys":
            pass
        else:
            return f(*a, **k)
    if name == "get":
        r = _find_key(d, key)
        return d[r] if r is not _MISS else (a[1] if len(a) > 1 else k.get("default"))
    if name == "pop":
        r = _find_key(d, key)
        if r is _MISS:
            if len(a) > 1:
                return a[1]
            raise KeyError("<sym>")
        return d.pop(r)
    if name == "setdefault":
        r = _find_key(d, key)
        if r is _MISS:
            _note_key(key)
            d[key] = a[1] if len(a) > 1 else None
            return d[key]
        return d[r]
    if name == "update":
        if a:
            m = a[0]
            pairs = [(x, m[x]) for x in m.keys()] if hasattr(m, "keys") else list(m)
            for x, v in pairs:
                sx_setitem(v, d, x)
        for x, v in k.items():
            sx_setitem(v, d, x)
        return None
    if name == "__contains__":
        return contains(key, d)
    if name == "__getitem__":
        return sx_getitem(d, key)
    if name == "fromkeys":
        v = a[1] if len(a) > 1 else None
        return dict_from_pairs([(x, v) for x in a[0]])
    return f(*a, **k)


def has_sym_keys(m):
    try:
        return any(
            is_sym(x) or (type(x) in (tuple, list) and any(is_sym(y) for y in x))
            for x in m
        )
    except TypeError:
        return False


def _m_set(s, name, f, a, k):
    cx = core.CUR
    a = _materialise(a)
    if not (cx.flag_symkeys or (a and has_sym(a[0], 2))):
        return f(*a, **k)
    if name == "add":
        set_add(s, a[0])
        return None
    if name in ("discard", "remove"):
        r = _find_key(s, a[0])
        if r is not _MISS:
            s.discard(r)
        elif name == "remove":
            raise KeyError("<sym>")
        return None
    if name == "update":
        for xs in a:
            for x in list(xs):
                set_add(s, x)
        return None
    if name == "union":
        return sx_set(list(s) + [x for xs in a for x in xs])
    if name == "__contains__":
        return contains(a[0], s)
    if name == "issubset":
        return all(contains(x, list(a[0])) for x in s)
    if name in ("difference", "intersection"):
        want = name == "intersection"
        out = s
        for xs in a:
            xs = list(xs)
            out = {x for x in out if bool(contains(x, xs)) is want}
        return out
    if name == "issuperset":
        return all(contains(x, s) for x in list(a[0]))
    if name == "isdisjoint":
        return not any(contains(x, s) for x in list(a[0]))
    if name == "symmetric_difference":
        o = list(sx_set(list(a[0])))
        return {x for x in s if not contains(x, o)} | {x for x in o if not contains(x, s)}
    if name in ("difference_update", "intersection_update"):
        want = name == "intersection_update"
        for xs in a:
            xs = list(xs)
            for x in [x for x in s if bool(contains(x, xs)) is not want]:
                s.discard(x)
        return None
    if name in ("copy", "clear", "pop"):
        return f(*a, **k)
    raise Unsupported(f"set.{name} with symbolic elements")


def _m_list(l, name, f, a, k):
    if name in ("index", "remove", "count") and a and (
        is_sym(a[0]) or any(is_sym(y) for y in l)
    ):
        if name == "index":
            return _list_index(l, a)
        if name == "remove":
            del l[_list_index(l, a)]
            return None
        return sum(1 for y in l if _truth_eq(y, a[0]))
    if name == "sort" and k.get("key") is not None:
        k = dict(k, key=_wrap_callable(k["key"]))
    return f(*a, **k)


def _m_str(s, name, f, a, k):
    if name == "join":
        xs = list(a[0])
        if any(is_sym(x) for x in xs):
            return core.sx_join(s, xs)
        return f(xs)
    if name == "format":
        if any(has_sym(x) for x in a) or any(has_sym(v) for v in k.values()):
            return models.str_format(s, a, k)
        return f(*a, **k)
    if any(is_sym(x) or (type(x) is tuple and has_sym(x)) for x in a) or any(
        is_sym(v) for v in k.values()
    ):
        return getattr(SymStr(chars_of(s)), name)(*a, **k)
    return f(*a, **k)


RE_FUNCS = {
    re.match,
    re.fullmatch,
    re.search,
    re.sub,
    re.split,
    re.findall,
    re.finditer,
    re.subn,
}

JSON_FUNCS = {json.loads, json.dumps, json.load, json.dump}

QUOTE = {
    urllib.parse.quote: "quote",
    urllib.parse.quote_plus: "quote_plus",
    urllib.parse.unquote: "unquote",
    urllib.parse.unquote_plus: "unquote_plus",
}

TRANSPARENT = {
    copy.deepcopy,
    copy.copy,
    inspect.signature,
    functools.reduce,
    math.ceil,
    math.floor,
    isinstance,
    issubclass,
    id,
    callable,
    zip,
    enumerate,
    reversed,
    iter,
    next,
    any,
    all,
    sum,
    abs,
    list,
    tuple,
    range,
    print,
    vars,
    round,
    divmod,
    pow,
    super,
    object,
    slice,
    property,
    staticmethod,
    classmethod,
    operator.itemgetter,
    operator.attrgetter,
    BaseException,
    Exception,
    ValueError,
    TypeError,
    KeyError,
}

_NATIVE_OK_MODULES = ("recap", "props", "symx", "_sx_", "_pytest")


_ATOMIC = {int, str, bool, type(None), float, bytes, type, types.FunctionType}
_PLAIN_CLS = {}


def _plain_class(t):
    """instances copy as: new object, deep-copied __dict__ (object's protocol)"""
    r = _PLAIN_CLS.get(t)
    if r is None:
        r = (
            _is_instrumented(t)
            and not hasattr(t, "__deepcopy__")
            and t.__reduce_ex__ is object.__reduce_ex__
            and t.__reduce__ is object.__reduce__
            and not hasattr(t, "__getnewargs__")
            and not hasattr(t, "__getnewargs_ex__")
            and not hasattr(t, "__setstate__")
            and getattr(t, "__getstate__", None) is getattr(object, "__getstate__", None)
            and not any("__slots__" in c.__dict__ for c in t.__mro__)
            and t.__mro__[-2:] == (t.__mro__[-2], object)
            and t.__new__ is object.__new__
        )
        _PLAIN_CLS[t] = r
    return r


def fast_deepcopy(x, memo):
    """copy.deepcopy, specialised (same result, same sharing)"""
    t = type(x)
    if t in _ATOMIC or is_sym(x):
        return x
    i = id(x)
    y = memo.get(i)
    if y is not None:
        return y
    if t is dict:
        y = memo[i] = {}
        for k, v in x.items():
            y[k if type(k) is str or is_sym(k) else fast_deepcopy(k, memo)] = fast_deepcopy(v, memo)
    elif t is list:
        y = memo[i] = []
        for v in x:
            y.append(fast_deepcopy(v, memo))
    elif _plain_class(t):
        y = memo[i] = object.__new__(t)
        d = y.__dict__
        for k, v in x.__dict__.items():
            d[k] = fast_deepcopy(v, memo)
    else:
        y = copy.deepcopy(x, memo)
    memo.setdefault(id(memo), []).append(x)  # keep x alive while memo is
    return y


def _is_instrumented(f):
    m = getattr(f, "__module__", None) or ""
    return m.split(".")[0] in ("recap", "props", "symx") or m.startswith("_sx_")


_CMETHOD = type(re.compile("").search)  # methods that take their defining class


def sx_call(f, *a, **k):
    cx = core.CUR
    if cx is None:
        return f(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        if f in SHADOW:
            return SHADOW[f](*a, **k)
        if _is_instrumented(f):
            return f(*a, **k)
        if f in RE_FUNCS:
            return models.re_call(f, a, k)
        if f in JSON_FUNCS:
            return models.json_call(f, a, k)
        if f in QUOTE:
            return models.quote_call(f, QUOTE[f], a, k)
        if f is copy.deepcopy and len(a) == 1 and not k:
            return fast_deepcopy(a[0], {})
        if f in TRANSPARENT:
            return f(*a, **k)
        return _foreign(f, a, k)
    if t is types.MethodType:
        if _is_instrumented(f.__func__):
            return f(*a, **k)
        return _foreign(f, a, k)
    if t is types.BuiltinFunctionType or t is _CMETHOD:
        s = f.__self__
        ts = type(s)
        if ts is str:
            return _m_str(s, f.__name__, f, a, k)
        if ts is dict or isinstance(s, dict):
            return _m_dict(s, f.__name__, f, a, k)
        if ts is list:
            return _m_list(s, f.__name__, f, a, k)
        if ts is set or ts is frozenset:
            return _m_set(s, f.__name__, f, a, k)
        if ts is re.Pattern:
            return models.re_pattern_call(s, f.__name__, f, a, k)
        if s is dict and f.__name__ == "fromkeys":
            return _m_dict({}, "fromkeys", f, a, k)
        h = BUILTINS.get(f)
        if h is not None:
            return h(f, a, k)
        if f in TRANSPARENT or ts in (tuple,):
            return f(*a, **k)
        return _foreign(f, a, k)
    if isinstance(f, type):
        if f in SHADOW:
            return SHADOW[f](*a, **k)
        h = CLASSES.get(f)
        if h is not None:
            return h(f, a, k)
        if f in HOFS:
            return _f_hof(f, a, k)
        if f in TRANSPARENT or _is_instrumented(f) or issubclass(f, BaseException):
            return f(*a, **k)
        return _foreign(f, a, k)
    if t is types.MethodDescriptorType or t is types.WrapperDescriptorType:
        # str.lower(x), dict.get(d, k) ...
        if a and (is_sym(a[0])):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if a and f.__objclass__ in (str, dict, list, set):
            return sx_call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    try:
        if f in SHADOW:  # lru_cache wrappers
            return SHADOW[f](*a, **k)
        h = BUILTINS.get(f)
        if h is not None:
            return h(f, a, k)
    except TypeError:
        pass
    return f(*a, **k)


def _foreign(f, a, k):
    """un-instrumented library code: fine to pass symbolic values through, but
    an exception it raises on one is the engine's limitation, not behaviour"""
    if not (any(has_sym(x, 2) for x in a) or any(has_sym(v, 2) for v in k.values())):
        return f(*a, **k)
    m = models.FOREIGN.get(_key(f))
    if m is not None:
        return m(f, a, k)
    try:
        return f(*a, **k)
    except core.Control:
        raise
    except Exception as e:
        raise Unsupported(
            f"library call {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)} "
            f"on a symbolic value: {type(e).__name__}"
        )


def _key(f):
    return f"{getattr(f, '__module__', '')}.{getattr(f, '__qualname__', '')}"


EXPORTS = {
    "__sx_enter__": sx_enter,
    "__sx_call__": sx_call,
    "__sx_in__": sx_in,
    "__sx_notin__": sx_notin,
    "__sx_is__": sx_is,
    "__sx_isnot__": sx_isnot,
    "__sx_fstr__": sx_fstr,
    "__sx_msg__": sx_msg,
    "__sx_getitem__": sx_getitem,
    "__sx_setitem__": sx_setitem,
    "__sx_delitem__": sx_delitem,
    "__sx_dict__": sx_dict,
    "__sx_dictcomp__": sx_dictcomp,
    "__sx_set__": sx_set,
    "__sx_or__": sx_or,
    "__sx_ior__": sx_ior,
    "__sx_and__": sx_and,
    "__sx_sub__": sx_sub,
    "__sx_mod__": sx_mod,
}
models.hooks = sys.modules[__name__]
