"""
Models of the C-implemented or byte-level library functions that instrumented
code calls with symbolic arguments.  Every model is part of the claim; each is
cross-checked on every explored path, because the solver's model of the path is
re-run on the real code (real `re`, `json`, `urllib`, `pathlib`) and all
observations are compared.
"""

from __future__ import annotations

import copy
import json
import re
import string as _string

import re._constants as sc
import re._parser as sp
import z3

from . import core
from .core import (
    ALNUM,
    DIGIT,
    SPACE,
    SymBool,
    SymBytes,
    SymInt,
    SymReal,
    SymStr,
    Unsupported,
    _need_ascii,
    b_and,
    b_not,
    b_or,
    ceq,
    chars_of,
    cin,
    is_sym,
    mkbool,
    mkstr,
)

hooks = None  # set by hooks
FOREIGN: dict = {}


# ---------------------------------------------------------------------------
# JSON text
# ---------------------------------------------------------------------------


class JsonText:
    """The text json.dumps produces for a structure with symbolic leaves.
    json.loads of it gives the structure back (assumption: json is lossless on
    str/int/bool/None/list/str-keyed dict; tuples become lists)."""

    def __init__(self, obj):
        self.obj = obj

    @property
    def __class__(self):
        return str

    def encode(self, *a):
        return SymBytes(self)

    def strip(self):
        return self

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is JsonText:
            return core.deep_eq(self.obj, o.obj)
        if isinstance(o, str):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return 7

    def __str__(self):
        return "<json>"

    __repr__ = __str__

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"str.{n} on JSON text")


def json_norm(o, default=None):
    t = type(o)
    if o is None or t in (bool, int, float, str, SymInt, SymBool, SymStr, SymReal):
        return o
    if t is dict or isinstance(o, dict):
        d = {}
        for k, v in o.items():
            if k is None or isinstance(k, (bool, float)):
                k = json.loads(json.dumps({k: 0})).__iter__().__next__()
            elif type(k) is SymInt:
                k = core.int_to_str(k)
            elif isinstance(k, int) and not isinstance(k, str):
                k = str(k)
            elif not isinstance(k, str):
                raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")
            hooks.sx_setitem(json_norm(v, default), d, k)
        return d
    if isinstance(o, (list, tuple)):
        return [json_norm(x, default) for x in o]
    if isinstance(o, str):
        return str.__str__(o) if type(o) is not JsonText else o
    if isinstance(o, (int, float)):
        return o
    if default is not None:
        return json_norm(default(o), default)
    raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")


def json_call(f, a, k):
    if f is json.dumps:
        if not hooks.has_sym(a[0], 12):
            return f(*a, **k)
        return JsonText(json_norm(a[0], k.get("default")))
    if f is json.dump:
        if not hooks.has_sym(a[0], 12):
            return f(*a, **k)
        fp = a[1] if len(a) > 1 else k["fp"]
        try:
            o = json_norm(a[0], k.get("default"))
        except TypeError:
            fp.write("{")
            raise
        fp.write(JsonText(o))
        return None
    if f is json.load:
        s = a[0].read()
        return json_call(json.loads, (s,) + tuple(a[1:]), k)
    s = a[0]
    if type(s) is SymBytes:
        s = s.decode()
    if type(s) is JsonText:
        return copy.deepcopy(s.obj)
    if type(s) is SymStr:
        c = s.c
        # identifiers that are not a JSON literal
        idc = b_and(
            *[
                mkbool(cin(_need_ascii(x), core.ALPHA + [(46, 46), (95, 95)]))
                for x in c
            ]
        )
        if len(c) <= 3 and idc and not (len(c) == 3 and s == "NaN"):
            raise json.JSONDecodeError("Expecting value", "?", 0)
        raise Unsupported("json.loads of a symbolic string")
    return f(*a, **k)


# ---------------------------------------------------------------------------
# formatting
# ---------------------------------------------------------------------------


def format_int(v, spec):
    if spec in ("d", "n"):
        return core.int_to_str(v)
    return format(core.cur().concretize(v), spec)


def percent_format(fmt, args):
    if is_sym(fmt):
        raise Unsupported("% with a symbolic format")
    if not isinstance(args, tuple):
        args = (args,) if not isinstance(args, dict) else args
    out, i, n = [], 0, 0
    while i < len(fmt):
        if fmt[i] != "%":
            out.append(fmt[i])
            i += 1
            continue
        m = re.match(r"%(?:\((\w+)\))?([sdir%])", fmt[i:])
        if not m:
            raise Unsupported("% format " + fmt)
        if m.group(2) == "%":
            out.append("%")
        else:
            if m.group(1):
                v = args[m.group(1)]
            else:
                v = args[n]
                n += 1
            out.append(hooks.to_repr(v) if m.group(2) == "r" else hooks.to_text(v))
        i += m.end()
    return core.sx_join("", out)


def str_format(fmt, a, k):
    out, auto = [], 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        m = re.match(r"^(\w*)((?:\.\w+)*)$", field)
        if not m:
            raise Unsupported("format field " + field)
        if m.group(1) == "":
            v = a[auto]
            auto += 1
        elif m.group(1).isdigit():
            v = a[int(m.group(1))]
        else:
            v = k[m.group(1)]
        for at in filter(None, m.group(2).split(".")):
            v = getattr(v, at)
        out.append(hooks.fmt_value(v, {None: -1, "r": 114, "s": 115, "a": 97}[conv], spec or ""))
    return core.sx_join("", out)


# ---------------------------------------------------------------------------
# quoting
# ---------------------------------------------------------------------------

_ALWAYS_SAFE = ALNUM + [(95, 95), (46, 46), (45, 45), (126, 126)]


def quote_call(f, name, a, k):
    s = a[0] if a else k.get("string")
    if not is_sym(s):
        return f(*a, **k)
    if name == "quote":
        safe = k.get("safe", a[1] if len(a) > 1 else "/")
        return _quote(s, safe, False)
    if name == "quote_plus":
        safe = k.get("safe", a[1] if len(a) > 1 else "")
        return _quote(s, safe, True)
    if name == "unquote":
        return _unquote(s)
    return _unquote(s.replace("+", " "))


def _hexd(h):
    return z3.If(h < 10, h + 48, h + 55)


def _utf8(ch):
    """the UTF-8 bytes of a symbolic code point"""
    br = core.cur().branch
    if br(ch < 0x80):
        return [ch]
    if br(ch < 0x800):
        return [0xC0 + ch / 64, 0x80 + ch % 64]
    if br(ch < 0x10000):
        if br(z3.And(ch >= 0xD800, ch <= 0xDFFF)):
            raise UnicodeEncodeError("utf-8", "?", 0, 1, "surrogates not allowed")
        return [0xE0 + ch / 4096, 0x80 + (ch / 64) % 64, 0x80 + ch % 64]
    return [0xF0 + ch / 262144, 0x80 + (ch / 4096) % 64, 0x80 + (ch / 64) % 64, 0x80 + ch % 64]


def _from_utf8(bs):
    """code points of a run of (symbolic) bytes, at least one of them >= 128"""
    br = core.cur().branch
    lt = lambda b, n: b < n if type(b) is int else br(b < n)
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if lt(b, 0x80):
            out.append(b)
            i += 1
            continue
        if lt(b, 0xC2):
            raise Unsupported("invalid UTF-8")
        n, low, base = (2, 0x80, 0xC0) if lt(b, 0xE0) else (3, 0x800, 0xE0) if lt(b, 0xF0) else (4, 0x10000, 0xF0)
        if i + n > len(bs) or not lt(b, 0xF5):
            raise Unsupported("invalid UTF-8")
        v = b - base
        for c in bs[i + 1 : i + n]:
            if lt(c, 0x80) or not lt(c, 0xC0):
                raise Unsupported("invalid UTF-8")
            v = v * 64 + (c - 0x80)
        if lt(v, low):
            raise Unsupported("invalid UTF-8")
        out.append(v if type(v) is int else core._simp(v))
        i += n
    return out


def _quote(s, safe, plus):
    if is_sym(safe) or isinstance(safe, bytes):
        raise Unsupported("quote: safe")
    ok = _ALWAYS_SAFE + [(ord(ch), ord(ch)) for ch in safe if ord(ch) < 128]
    out = []
    for ch in s.c:
        if type(ch) is int:
            import urllib.parse as up

            out.extend(map(ord, (up.quote_plus if plus else up.quote)(chr(ch), safe)))
            continue
        if mkbool(cin(ch, ok)):
            out.append(ch)
        elif plus and mkbool(ceq(ch, 32)):
            out.append(43)
        else:
            for b in _utf8(ch):
                out.extend([37, core._simp(_hexd(b / 16)), core._simp(_hexd(b % 16))])
    return mkstr(_fold(c) for c in out)


def _fold(c):
    if type(c) is not int and z3.is_int_value(c):
        return c.as_long()
    return c


def _hexval(ch):
    """-> z3/int value, or None when not a hex digit (forks)"""
    if type(ch) is int:
        try:
            return int(chr(ch), 16) if chr(ch) in "0123456789abcdefABCDEF" else None
        except ValueError:
            return None
    if mkbool(cin(ch, DIGIT)):
        return ch - 48
    if mkbool(cin(ch, [(65, 70)])):
        return ch - 55
    if mkbool(cin(ch, [(97, 102)])):
        return ch - 87
    return None


def _unquote(s):
    c = chars_of(s)
    out, i = [], 0
    run, high = [], False  # percent-encoded bytes

    def flush():
        nonlocal run, high
        out.extend(_fold(x) for x in (_from_utf8(run) if high else run))
        run, high = [], False

    while i < len(c):
        if i + 2 < len(c) and mkbool(ceq(c[i], 37)):
            h = _hexval(c[i + 1])
            l = _hexval(c[i + 2]) if h is not None else None
            if h is not None and l is not None:
                v = h * 16 + l
                if type(v) is not int:
                    v = core._simp(v)
                    if not core.cur().branch(v < 128):
                        high = True
                elif v >= 128:
                    high = True
                run.append(v)
                i += 3
                continue
        flush()
        out.append(c[i])
        i += 1
    flush()
    return mkstr(out)


# ---------------------------------------------------------------------------
# pathlib
# ---------------------------------------------------------------------------

# the files a harness pretends there are: [(absolute path, text)]; None: no model
FILES = None
# where print() writes while a harness listens
PRINT = None


def _norm(path):
    p = path if isinstance(path, SymPath) else SymPath.make((path,))
    return p.as_posix()


def file_text(path):
    if FILES is None:
        raise Unsupported("file access by a symbolic path")
    n = _norm(path)
    for f, t in FILES:
        if core.deep_eq(n, f):
            return t
    raise FileNotFoundError(2, "No such file or directory")


def dir_names(path):
    if FILES is None:
        raise Unsupported("file access by a symbolic path")
    n = _norm(path)
    out, seen = [], False
    for f, _ in FILES:
        d, _, name = f.rpartition("/")
        if core.deep_eq(n, d or "/"):
            out.append(name)
        if core.deep_eq(n, f):
            raise NotADirectoryError(20, "Not a directory")
    if not out:
        raise FileNotFoundError(2, "No such file or directory")
    return out


def open_call(f, a, k):
    if a and (core.is_sym(a[0]) or isinstance(a[0], SymPath)):
        import io

        t = file_text(a[0])
        mode = a[1] if len(a) > 1 else k.get("mode", "r")
        return io.BytesIO(t.encode()) if "b" in mode else io.StringIO(t)
    return f(*a, **k)


def listdir_call(f, a, k):
    if a and (core.is_sym(a[0]) or isinstance(a[0], SymPath)):
        return dir_names(a[0])
    return f(*a, **k)


class SymPath:
    """PurePosixPath over a symbolic string (no filesystem access)"""

    def __init__(self, root, parts):
        self._root, self._parts = root, parts

    @staticmethod
    def make(segs):
        root, parts = "", []
        for s in segs:
            if isinstance(s, SymPath):
                r, p = s._root, list(s._parts)
            else:
                r, p = SymPath._parse(s if not hasattr(s, "as_posix") else s.as_posix())
            if r:
                root, parts = r, p
            else:
                parts = parts + p
        return SymPath(root, parts)

    @staticmethod
    def _parse(s):
        s = SymStr(chars_of(s))
        root = ""
        if s.startswith("/"):
            if s.startswith("//") and not s.startswith("///"):
                root = "//"
            else:
                root = "/"
        segs = s.split("/")
        return root, [p for p in segs if len(p) and not (len(p) == 1 and p == ".")]

    @property
    def parts(self):
        return ((self._root,) if self._root else ()) + tuple(self._parts)

    def as_posix(self):
        if not self._root and not self._parts:
            return "."
        return core.sx_join("", [self._root, core.sx_join("/", self._parts)])

    @property
    def name(self):
        return self._parts[-1] if self._parts else ""

    @property
    def suffix(self):
        n = self.name
        i = n.rfind(".")
        if 0 < i < len(n) - 1:
            return n[i:]
        return ""

    @property
    def stem(self):
        n = self.name
        i = n.rfind(".")
        if 0 < i < len(n) - 1:
            return n[:i]
        return n

    @property
    def parent(self):
        return SymPath(self._root, self._parts[:-1])

    def is_absolute(self):
        return bool(self._root)

    def read_text(self, *a, **k):
        return file_text(self)

    def read_bytes(self):
        return file_text(self).encode()

    def open(self, *a, **k):
        return open_call(None, (self,) + a, k)

    def iterdir(self):
        return iter([SymPath.make((self, n)) for n in dir_names(self)])

    def __truediv__(self, o):
        return SymPath.make((self, o))

    def joinpath(self, *o):
        return SymPath.make((self,) + o)

    def __rtruediv__(self, o):
        return SymPath.make((o, self))

    @property
    def parents(self):
        n = len(self._parts)
        return tuple(SymPath(self._root, self._parts[:i]) for i in range(n - 1, -1, -1))

    @property
    def root(self):
        return self._root

    anchor = root

    @property
    def suffixes(self):
        n = self.name
        if not len(n) or n.endswith("."):
            return []
        n = n.lstrip(".")
        return ["." + s for s in n.split(".")[1:]]

    def with_name(self, name):
        if not self._parts:
            raise ValueError("has an empty name")
        return SymPath(self._root, self._parts[:-1] + [name])

    def with_suffix(self, suffix):
        return self.with_name(self.stem + suffix)

    def is_relative_to(self, o, *more):
        o = SymPath.make((o,) + more)
        if self._root != o._root or len(o._parts) > len(self._parts):
            return False
        return all(core.deep_eq(a, b) for a, b in zip(self._parts, o._parts))

    def relative_to(self, o, *more):
        o = SymPath.make((o,) + more)
        if not self.is_relative_to(o):
            raise ValueError("not in the subpath")
        return SymPath("", self._parts[len(o._parts) :])

    def __fspath__(self):
        raise Unsupported("os.fspath of a symbolic path")

    def __eq__(self, o):
        if not isinstance(o, SymPath):
            if not hasattr(o, "as_posix"):
                return NotImplemented
            o = SymPath.make((o,))
        return (
            self._root == o._root
            and len(self._parts) == len(o._parts)
            and all(core.deep_eq(a, b) for a, b in zip(self._parts, o._parts))
        )

    def __hash__(self):
        raise Unsupported("hash of a symbolic path")

    def __str__(self):
        return self.as_posix()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Path.{n} on a symbolic path")


# ---------------------------------------------------------------------------
# regular expressions
# ---------------------------------------------------------------------------

_WORD = ALNUM + [(95, 95)]
_CATS = {
    sc.CATEGORY_DIGIT: (DIGIT, False),
    sc.CATEGORY_NOT_DIGIT: (DIGIT, True),
    sc.CATEGORY_SPACE: (SPACE, False),
    sc.CATEGORY_NOT_SPACE: (SPACE, True),
    sc.CATEGORY_WORD: (_WORD, False),
    sc.CATEGORY_NOT_WORD: (_WORD, True),
}


def _other_case(o):
    ch = chr(o)
    return {o, ord(ch.lower()) if len(ch.lower()) == 1 else o, ord(ch.upper()) if len(ch.upper()) == 1 else o}


def _member(ch, items, flags):
    """z3/bool: ch in a character class"""
    negate = False
    rs = []
    for op, av in items:
        if op is sc.NEGATE:
            negate = True
        elif op is sc.LITERAL:
            opts = _other_case(av) if flags & re.I else {av}
            rs.append(cin(ch, [(o, o) for o in opts]))
        elif op is sc.RANGE:
            rs.append(cin(ch, [av]))
            if flags & re.I:
                lo, hi = av
                both = sorted({x for o in range(lo, min(hi, 255) + 1) for x in _other_case(o)})
                rs.append(cin(ch, [(o, o) for o in both]))
        elif op is sc.CATEGORY:
            r, neg = _CATS[av]
            v = cin(_need_ascii(ch), r)
            rs.append(b_not(v) if neg else v)
        else:
            raise Unsupported(f"regex class {op}")
    r = b_or(*[x if not isinstance(x, z3.BoolRef) else mkbool(x) for x in rs])
    return b_not(r) if negate else r


class Rx:
    """Matcher over a string of concrete length with symbolic characters."""

    def __init__(self, pattern, flags):
        if is_sym(pattern):
            raise Unsupported("symbolic regular expression")
        p = sp.parse(pattern, flags)
        self.tree = p
        self.flags = p.state.flags | flags
        self.groups = p.state.groups
        self.groupdict = p.state.groupdict

    # -- one-character test as a condition
    def one(self, op, av, ch):
        if op is sc.LITERAL:
            if self.flags & re.I:
                return cin(ch, [(o, o) for o in _other_case(av)])
            return ceq(ch, av)
        if op is sc.NOT_LITERAL:
            return b_not(mkb(ceq(ch, av)))
        if op is sc.ANY:
            return True if self.flags & re.S else b_not(mkb(ceq(ch, 10)))
        if op is sc.IN:
            return _member(ch, av, self.flags)
        return None

    def at(self, av, s, i):
        n = len(s)
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            if av is sc.AT_BEGINNING and self.flags & re.M and i > 0:
                return mkb(ceq(s[i - 1], 10))
            return i == 0
        if av is sc.AT_END_STRING:
            return i == n
        if av is sc.AT_END:
            if i == n:
                return True
            if self.flags & re.M:
                return mkb(ceq(s[i], 10))
            return i == n - 1 and mkb(ceq(s[i], 10))
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            l = i > 0 and mkb(cin(_need_ascii(s[i - 1]), _WORD))
            r = i < n and mkb(cin(_need_ascii(s[i]), _WORD))
            x = mkb(z3.Xor(core.zb(l), core.zb(r)))
            return x if av is sc.AT_BOUNDARY else b_not(x)
        raise Unsupported(f"regex at {av}")

    # -- formula: set of end positions with conditions (no priorities)
    def ends(self, nodes, s, i):
        cur = {i: True}
        for op, av in nodes:
            nxt = {}
            for p, c in cur.items():
                for q, d in self.ends1(op, av, s, p).items():
                    cd = b_and(c, d)
                    if cd is False:
                        continue
                    nxt[q] = b_or(nxt[q], cd) if q in nxt else cd
            cur = nxt
            if not cur:
                break
        return cur

    def ends1(self, op, av, s, i):
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i >= len(s):
                return {}
            c = mkb(self.one(op, av, s[i]))
            return {} if c is False else {i + 1: c}
        if op is sc.AT:
            c = self.at(av, s, i)
            return {} if c is False else {i: c}
        if op is sc.BRANCH:
            out = {}
            for alt in av[1]:
                for q, c in self.ends(alt, s, i).items():
                    out[q] = b_or(out[q], c) if q in out else c
            return out
        if op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("regex inline flags")
            return self.ends(av[3], s, i)
        if op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
            lo, hi, body = av
            out = {}
            cur = {i: True}
            k = 0
            if lo == 0:
                out[i] = True
            while cur and k < hi and k <= len(s) + 1:
                nxt = {}
                for p, c in cur.items():
                    for q, d in self.ends(body, s, p).items():
                        if q == p and k >= lo:
                            continue
                        cd = b_and(c, d)
                        if cd is False:
                            continue
                        nxt[q] = b_or(nxt[q], cd) if q in nxt else cd
                k += 1
                cur = nxt
                if k >= lo:
                    for q, c in cur.items():
                        out[q] = b_or(out[q], c) if q in out else c
            return out
        raise Unsupported(f"regex op {op}")

    # -- backtracking with python's priorities: yields (end, groups); forks
    def run(self, nodes, idx, s, i, g):
        if idx == len(nodes):
            yield i, g
            return
        op, av = nodes[idx]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < len(s) and mkb(self.one(op, av, s[i])):
                yield from self.run(nodes, idx + 1, s, i + 1, g)
            return
        if op is sc.AT:
            if self.at(av, s, i):
                yield from self.run(nodes, idx + 1, s, i, g)
            return
        if op is sc.BRANCH:
            for alt in av[1]:
                for j, g2 in self.run(list(alt), 0, s, i, g):
                    yield from self.run(nodes, idx + 1, s, j, g2)
            return
        if op is sc.SUBPATTERN:
            num, af, df, body = av
            if af or df:
                raise Unsupported("regex inline flags")
            for j, g2 in self.run(list(body), 0, s, i, g):
                g3 = dict(g2)
                if num is not None:
                    g3[num] = (i, j)
                yield from self.run(nodes, idx + 1, s, j, g3)
            return
        if op is sc.MAX_REPEAT or op is sc.MIN_REPEAT:
            lo, hi, body = av
            body = list(body)
            greedy = op is sc.MAX_REPEAT

            def rep(k, p, gg):
                def more():
                    if k < hi:
                        for j, g2 in self.run(body, 0, s, p, gg):
                            if j == p and k >= lo:
                                continue
                            yield from rep(k + 1, j, g2)

                if not greedy and k >= lo:
                    yield p, gg
                yield from more()
                if greedy and k >= lo:
                    yield p, gg

            for j, g2 in rep(0, i, g):
                yield from self.run(nodes, idx + 1, s, j, g2)
            return
        if op is sc.GROUPREF:
            if av in g:
                a, b = g[av]
                if core.seq_eq(s[i : i + b - a], s[a:b]) if i + b - a <= len(s) else False:
                    yield from self.run(nodes, idx + 1, s, i + b - a, g)
            return
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, body = av
            if d < 0:
                raise Unsupported("regex lookbehind")
            hit = any(True for _ in self.run(list(body), 0, s, i, g))
            if hit == (op is sc.ASSERT):
                yield from self.run(nodes, idx + 1, s, i, g)
            return
        raise Unsupported(f"regex op {op}")

    def match_at(self, s, i, full=False):
        for j, g in self.run(list(self.tree), 0, s, i, {}):
            if not full or j == len(s):
                return SymMatch(self, s, i, j, g)
        return None

    def _simple(self):
        return self.groups == 1  # no capturing groups

    def fullmatch(self, s):
        if self._simple():
            try:
                e = self.ends(list(self.tree), s, 0)
                if e.get(len(s), False):
                    return SymMatch(self, s, 0, len(s), {})
                return None
            except Unsupported:
                pass
        return self.match_at(s, 0, True)

    def match(self, s):
        return self.match_at(s, 0)

    def search(self, s, start=0):
        for i in range(start, len(s) + 1):
            m = self.match_at(s, i)
            if m:
                return m
        return None

    def finditer(self, s):
        i, prev_end = 0, -1
        while i <= len(s):
            m = self.search(s, i)
            if not m:
                return
            a, b = m.span()
            if a == b:
                if a == prev_end:
                    i = a + 1
                    continue
                i = a + 1
            else:
                i = b
            prev_end = b
            yield m


def mkb(x):
    return mkbool(x) if isinstance(x, z3.BoolRef) else x


class SymMatch:
    def __init__(self, rx, s, i, j, g):
        self.rx, self.s, self.i, self.j, self.g = rx, s, i, j, g

    @property
    def string(self):
        return mkstr(self.s)

    def _num(self, n):
        return self.rx.groupdict[n] if isinstance(n, str) else n

    def span(self, n=0):
        n = self._num(n)
        if n == 0:
            return (self.i, self.j)
        return self.g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def _one(self, n, default=None):
        a, b = self.span(n)
        return default if a < 0 else mkstr(self.s[a:b])

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = tuple(self._one(n) for n in ns)
        return r[0] if len(r) == 1 else r

    def __getitem__(self, n):
        return self._one(n)

    def groups(self, default=None):
        return tuple(self._one(n, default) for n in range(1, self.rx.groups))

    def groupdict(self, default=None):
        return {k: self._one(v, default) for k, v in self.rx.groupdict.items()}

    def __bool__(self):
        return True


def _expand(repl, m):
    if not isinstance(repl, str):
        return repl(m)
    if is_sym(repl):
        raise Unsupported("symbolic replacement")
    if "\\" in repl:
        out = []
        for part in re.split(r"(\\\d|\\g<\w+>)", repl):
            g = re.fullmatch(r"\\(\d)|\\g<(\w+)>", part)
            if g:
                k = g.group(1) or g.group(2)
                out.append(m._one(int(k) if k.isdigit() else k) or "")
            elif "\\" in part:
                raise Unsupported("replacement escape")
            else:
                out.append(part)
        return core.sx_join("", out)
    return repl


def _sub(rx, repl, s, count=0):
    out, last, n = [], 0, 0
    for m in rx.finditer(s):
        a, b = m.span()
        out.append(mkstr(s[last:a]))
        out.append(_expand(repl, m))
        last = b
        n += 1
        if count and n >= count:
            break
    out.append(mkstr(s[last:]))
    return core.sx_join("", out), n


def _dispatch(name, rx, args, k, flagless=True):
    s = None
    if name in ("match", "fullmatch", "search"):
        s = chars_of(args[0])
        if s is None:
            raise TypeError("expected string or bytes-like object")
        if len(args) > 1 and not flagless:
            raise Unsupported("regex pos argument")
        return getattr(rx, name)(s)
    if name in ("sub", "subn"):
        s = chars_of(args[1])
        count = args[2] if len(args) > 2 else k.get("count", 0)
        r = _sub(rx, args[0], s, count)
        return r[0] if name == "sub" else r
    if name in ("findall", "finditer"):
        s = chars_of(args[0])
        ms = list(rx.finditer(s))
        if name == "finditer":
            return iter(ms)
        if rx.groups == 1:
            return [m.group() for m in ms]
        if rx.groups == 2:
            return [m._one(1, "") for m in ms]
        return [m.groups("") for m in ms]
    if name == "split":
        s = chars_of(args[0])
        mx = args[1] if len(args) > 1 else k.get("maxsplit", 0)
        out, last = [], 0
        for n, m in enumerate(rx.finditer(s)):
            if mx and n >= mx:
                break
            a, b = m.span()
            out.append(mkstr(s[last:a]))
            out.extend(m.groups())
            last = b
        out.append(mkstr(s[last:]))
        return out
    raise Unsupported(f"re.{name}")


def re_call(f, a, k):
    if not any(is_sym(x) for x in a) and not any(is_sym(v) for v in k.values()):
        return f(*a, **k)
    name = f.__name__
    pat, rest = a[0], list(a[1:])
    names = {
        "match": ["string", "flags"], "fullmatch": ["string", "flags"], "search": ["string", "flags"],
        "findall": ["string", "flags"], "finditer": ["string", "flags"],
        "sub": ["repl", "string", "count", "flags"], "subn": ["repl", "string", "count", "flags"],
        "split": ["string", "maxsplit", "flags"],
    }[name]
    for nm in names[len(rest):]:
        rest.append(k.get(nm, 0))
    flags = int(rest.pop())
    if isinstance(pat, re.Pattern):
        rx = Rx(pat.pattern, pat.flags & ~re.U)
    else:
        rx = Rx(pat, flags)
    return _dispatch(name, rx, rest, {})


def re_pattern_call(p, name, f, a, k):
    if not any(is_sym(x) for x in a) and not any(is_sym(v) for v in k.values()):
        return f(*a, **k)
    if k:
        order = {"sub": ["repl", "string", "count"]}.get(name, ["string"])
        a = list(a) + [k[o] for o in order[len(a):] if o in k]
    return _dispatch(name, Rx(p.pattern, p.flags & ~re.U), list(a), {}, False)
