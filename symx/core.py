"""
Path-exploring symbolic executor core.

A *harness* is a python function ``h(cx)``.  Under :class:`SymCtx` every input
it draws from ``cx`` is an SMT variable; every branch the (instrumented) code
under test takes on a symbolic value becomes a solver query, and both feasible
sides are explored by deterministic re-execution (depth first, exhaustive).
``cx.check(cond)`` asks the solver for a value of the inputs on this path that
falsifies ``cond``.

Sorts: python ``int`` -> SMT Int (mathematical integers, as python's are);
``str`` -> a concrete number of characters, each an SMT Int code point (the
length is a branch variable); ``bool`` results of comparisons -> SMT Bool;
finite choices -> SMT Int in a range, branched on.
"""

from __future__ import annotations

import operator
import time

import z3

# ---------------------------------------------------------------------------
# control-flow exceptions: BaseException so that `except Exception` in the code
# under test can never swallow them
# ---------------------------------------------------------------------------


class Control(BaseException):
    pass


class Infeasible(Control):
    """The current path condition became unsatisfiable (assume)."""


class Unsupported(Control):
    """The engine has no model of an operation: the path is inconclusive."""


class Budget(Control):
    """A per-path budget ran out: the path is inconclusive."""


class StopPath(Control):
    """End the path quietly (a violation has been recorded on it)."""


CUR: "SymCtx | None" = None  # the active context (one per process)


def cur() -> "SymCtx":
    if CUR is None:
        raise RuntimeError("no active symbolic context")
    return CUR


def is_sym(x) -> bool:
    t = type(x)
    return t is SymInt or t is SymStr or t is SymBool or t is SymReal


# ---------------------------------------------------------------------------
# symbolic values
# ---------------------------------------------------------------------------


_T, _F = z3.BoolVal(True), z3.BoolVal(False)
_TI, _FI = _T.get_id(), _F.get_id()


def _is_t(e):
    return e.get_id() == _TI


def _is_f(e):
    return e.get_id() == _FI


def _simp(e):
    return z3.simplify(e)


def mkbool(e):
    """z3 BoolRef / bool -> python bool when constant, else SymBool."""
    if isinstance(e, bool):
        return e
    if type(e) is SymBool:
        return e
    e = _simp(e)
    if _is_t(e):
        return True
    if _is_f(e):
        return False
    return SymBool(e)


def zb(x):
    """python truth value -> z3 Bool"""
    if type(x) is SymBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def b_and(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif isinstance(x, z3.BoolRef):
            out.append(x)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])


def b_or(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.e)
        elif isinstance(x, z3.BoolRef):
            out.append(x)
        elif x:
            return True
    if not out:
        return False
    return mkbool(z3.Or(*out) if len(out) > 1 else out[0])


def b_not(x):
    if type(x) is SymBool:
        return mkbool(z3.Not(x.e))
    if isinstance(x, z3.BoolRef):
        return mkbool(z3.Not(x))
    return not x


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if isinstance(o, bool):
            return mkbool(self.e if o else z3.Not(self.e))
        if type(o) is SymInt or isinstance(o, int):
            return SymInt(z3.If(self.e, 1, 0)) == o
        return NotImplemented if not is_sym(o) else False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, bool):
            return b_and(self, o)
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return b_or(self, o)
        return NotImplemented

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return mkbool(z3.Xor(zb(self), zb(o)))
        return NotImplemented

    __rxor__ = __xor__

    def __int__(self):
        return 1 if bool(self) else 0

    __index__ = __int__

    def __add__(self, o):
        return SymInt(z3.If(self.e, 1, 0)) + o

    __radd__ = __add__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return "<symbool>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<symbool>"


def zi(x):
    """python int-like -> z3 Int expression"""
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return None


def mkint(e):
    if isinstance(e, int):
        return e
    e = _simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


_CMP = {}


class SymInt:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    # -- comparisons
    def _cmp(self, o, f):
        t = type(o)
        if t is int:
            # memo: the same comparison recurs on every path
            key = (f, self.e.get_id(), o)
            r = _CMP.get(key)
            if r is None:
                if len(_CMP) > 200_000:
                    _CMP.clear()
                r = _CMP[key] = (self.e, mkbool(f(self.e, z3.IntVal(o))))
            return r[1]
        if t is SymReal:
            return mkbool(f(z3.ToReal(self.e), o.e))
        if t is float:
            return mkbool(f(z3.ToReal(self.e), z3.RealVal(repr(o))))
        z = zi(o)
        if z is None:
            return NotImplemented
        return mkbool(f(self.e, z))

    def __eq__(self, o):
        if type(o) is SymStr:
            return False
        return self._cmp(o, operator.eq)

    def __ne__(self, o):
        if type(o) is SymStr:
            return True
        return self._cmp(o, operator.ne)

    def __lt__(self, o):
        return self._cmp(o, operator.lt)

    def __le__(self, o):
        return self._cmp(o, operator.le)

    def __gt__(self, o):
        return self._cmp(o, operator.gt)

    def __ge__(self, o):
        return self._cmp(o, operator.ge)

    def __hash__(self):
        return 0x5EED1

    def __bool__(self):
        return cur().branch(self.e != 0)

    # -- arithmetic
    def _bin(self, o, f):
        if type(o) is SymReal or type(o) is float:
            return NotImplemented
        z = zi(o)
        if z is None:
            return NotImplemented
        return mkint(f(self.e, z))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) in (str, list, tuple, SymStr):
            return o * cur().concretize(self)
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def __floordiv__(self, o):
        # python floor division; SMT div is euclidean: identical for a positive
        # divisor, so concretise the divisor's sign first
        z = zi(o)
        if z is None:
            return NotImplemented
        if not cur().branch(z != 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if cur().branch(z > 0):
            return mkint(self.e / z)
        return mkint((-self.e) / (-z))

    def __rfloordiv__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        return SymInt(z) // self

    def __mod__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        if not cur().branch(z != 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if cur().branch(z > 0):
            return mkint(self.e % z)
        return mkint(-((-self.e) % (-z)))

    def __rmod__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        return SymInt(z) % self

    def __divmod__(self, o):
        return (self // o, self % o)

    def __truediv__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        if not cur().branch(z != 0):
            raise ZeroDivisionError("division by zero")
        return SymReal(z3.ToReal(self.e) / z3.ToReal(z))

    def __rtruediv__(self, o):
        z = zi(o)
        if z is None:
            return NotImplemented
        return SymInt(z) / self

    def __pow__(self, o):
        if isinstance(o, int) and type(o) is not SymInt and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return cur().concretize(self) ** (
            cur().concretize(o) if type(o) is SymInt else o
        )

    def __rpow__(self, o):
        return o ** cur().concretize(self)

    def __lshift__(self, o):
        if isinstance(o, int) and type(o) is not SymInt:
            return self * (1 << o)
        return cur().concretize(self) << cur().concretize(o)

    def __rlshift__(self, o):
        return o << cur().concretize(self)

    def __rshift__(self, o):
        if isinstance(o, int) and type(o) is not SymInt:
            return self // (1 << o)
        return cur().concretize(self) >> cur().concretize(o)

    def __rrshift__(self, o):
        return o >> cur().concretize(self)

    def __and__(self, o):
        if type(o) is int and o > 0 and (o & (o + 1)) == 0:
            return self % (o + 1)
        return cur().concretize(self) & (cur().concretize(o) if type(o) is SymInt else o)

    __rand__ = __and__

    def __or__(self, o):
        return cur().concretize(self) | (cur().concretize(o) if type(o) is SymInt else o)

    __ror__ = __or__

    def __xor__(self, o):
        return cur().concretize(self) ^ (cur().concretize(o) if type(o) is SymInt else o)

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def bit_length(self):
        return cur().concretize(self).bit_length()

    def is_integer(self):
        return True

    def __int__(self):
        return cur().concretize(self)

    def __index__(self):
        return cur().concretize(self)

    def __float__(self):
        return float(cur().concretize(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return "<symint>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<symint>"


def zr(x):
    if type(x) is SymReal:
        return x.e
    if type(x) is SymInt:
        return z3.ToReal(x.e)
    if isinstance(x, float):
        return z3.RealVal(repr(x))
    z = zi(x)
    return None if z is None else z3.ToReal(z)


class SymReal:
    """Exact rational standing in for a float quotient (see DESIGN: domain restricted so floats are exact)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = _simp(e)

    @property
    def __class__(self):
        return float

    def _cmp(self, o, f):
        z = zr(o)
        return NotImplemented if z is None else mkbool(f(self.e, z))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    __hash__ = None

    def _bin(self, o, f):
        z = zr(o)
        return NotImplemented if z is None else SymReal(f(self.e, z))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return SymReal(-self.e)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def __trunc__(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported("round(x, n) on a symbolic quotient")
        fl = z3.ToInt(self.e)
        fr = self.e - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        up = z3.Or(fr > half, z3.And(fr == half, fl % 2 == 1))
        return mkint(z3.If(up, fl + 1, fl))

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return "<symreal>"

    __repr__ = __str__


# ---------------------------------------------------------------------------
# strings
# ---------------------------------------------------------------------------


def chars_of(s):
    """str | SymStr -> tuple of (int | z3 expr)"""
    if type(s) is SymStr:
        return s.c
    if isinstance(s, str):
        return tuple(map(ord, s))
    return None


def mkstr(chars):
    chars = tuple(chars)
    for c in chars:
        if type(c) is not int:
            return SymStr(chars)
    return "".join(map(chr, chars))


def ceq(a, b):
    """character equality -> bool | z3 Bool"""
    ta, tb = type(a) is int, type(b) is int
    if ta and tb:
        return a == b
    if not ta and not tb and a.eq(b):
        return True
    return a == b


def cin(c, ranges):
    """character in list of (lo, hi) -> bool | z3 Bool"""
    if type(c) is int:
        return any(lo <= c <= hi for lo, hi in ranges)
    return z3.Or(*[(c == lo if lo == hi else z3.And(c >= lo, c <= hi)) for lo, hi in ranges])


def seq_eq(xs, ys):
    """tuple-of-chars equality -> python bool | SymBool"""
    if len(xs) != len(ys):
        return False
    out = []
    for a, b in zip(xs, ys):
        r = ceq(a, b)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    if not out:
        return True
    return mkbool(z3.And(*out) if len(out) > 1 else out[0])


DIGIT = [(48, 57)]
UPPER = [(65, 90)]
LOWER = [(97, 122)]
ALPHA = UPPER + LOWER
ALNUM = DIGIT + ALPHA
SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0)]


def _need_ascii(c):
    """the modelled case tables are ASCII; a non-ASCII symbolic char is pinned."""
    if type(c) is int:
        return c
    if cur().branch(c < 128):
        return c
    return cur().concretize(SymInt(c))


class SymStr:
    __slots__ = ("c",)

    def __init__(self, chars):
        self.c = tuple(chars)

    @property
    def __class__(self):
        return str

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __str__(self):
        return "<symstr>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<symstr>"

    def __hash__(self):
        return 0x5EED2

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __eq__(self, o):
        oc = chars_of(o)
        if oc is None:
            return NotImplemented if not is_sym(o) else False
        return seq_eq(self.c, oc)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else b_not(r)

    def _lt(self, oc, orequal):
        # lexicographic order by code point
        res = z3.BoolVal(
            len(self.c) <= len(oc) if orequal else len(self.c) < len(oc)
        )
        for a, b in reversed(list(zip(self.c, oc))):
            a = z3.IntVal(a) if type(a) is int else a
            b = z3.IntVal(b) if type(b) is int else b
            res = z3.Or(a < b, z3.And(a == b, res))
        return mkbool(res)

    def __lt__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else self._lt(oc, False)

    def __le__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else self._lt(oc, True)

    def __gt__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else SymStr(oc)._lt(self.c, False)

    def __ge__(self, o):
        oc = chars_of(o)
        return NotImplemented if oc is None else SymStr(oc)._lt(self.c, True)

    def __iter__(self):
        for ch in self.c:
            yield mkstr((ch,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[_ix(v) for v in (i.start, i.stop, i.step)])
            return mkstr(self.c[i])
        i = _ix(i)
        if not -len(self.c) <= i < len(self.c):
            raise IndexError("string index out of range")
        return mkstr((self.c[i],))

    def __add__(self, o):
        oc = chars_of(o)
        if oc is None:
            raise TypeError('can only concatenate str to str')
        return mkstr(self.c + oc)

    def __radd__(self, o):
        oc = chars_of(o)
        if oc is None:
            raise TypeError('can only concatenate str to str')
        return mkstr(oc + self.c)

    def __mul__(self, n):
        return mkstr(self.c * _ix(n))

    __rmul__ = __mul__

    def __mod__(self, args):
        raise Unsupported("% formatting with a symbolic format string")

    # -- search primitives
    def _at(self, sub, i):
        return seq_eq(self.c[i : i + len(sub)], sub)

    def __contains__(self, sub):
        return bool(self.sx_contains(sub))

    def sx_contains(self, sub):
        sc = chars_of(sub)
        if sc is None:
            raise TypeError("'in <string>' requires string as left operand")
        n, m = len(self.c), len(sc)
        return b_or(*[self._at(sc, i) for i in range(n - m + 1)])

    def _affix(self, p, start, end, at_end):
        s = self if start is None and end is None else self[slice(start, end)]
        sc = chars_of(s)
        if isinstance(p, tuple):
            return b_or(*[SymStr(sc)._affix(q, None, None, at_end) for q in p])
        pc = chars_of(p)
        if pc is None:
            raise TypeError("startswith first arg must be str or a tuple of str")
        if len(pc) > len(sc):
            return False
        part = sc[len(sc) - len(pc) :] if at_end else sc[: len(pc)]
        return seq_eq(part, pc)

    def startswith(self, p, start=None, end=None):
        return self._affix(p, start, end, False)

    def endswith(self, p, start=None, end=None):
        return self._affix(p, start, end, True)

    def find(self, sub, start=None, end=None):
        sc = chars_of(sub)
        lo, hi, _ = slice(start, end).indices(len(self.c))
        for i in range(lo, hi - len(sc) + 1):
            if self._at(sc, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sc = chars_of(sub)
        lo, hi, _ = slice(start, end).indices(len(self.c))
        for i in range(hi - len(sc), lo - 1, -1):
            if self._at(sc, i):
                return i
        return -1

    def index(self, sub, *a):
        i = self.find(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, sub, *a):
        i = self.rfind(sub, *a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, *a):
        sc = chars_of(sub)
        n, i = 0, 0
        while i + len(sc) <= len(self.c):
            if self._at(sc, i):
                n += 1
                i += max(1, len(sc))
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            return self._split_ws(maxsplit)
        sc = chars_of(sep)
        if not sc:
            raise ValueError("empty separator")
        out, last, i = [], 0, 0
        while i + len(sc) <= len(self.c) and (maxsplit < 0 or len(out) < maxsplit):
            if self._at(sc, i):
                out.append(mkstr(self.c[last:i]))
                i += len(sc)
                last = i
            else:
                i += 1
        out.append(mkstr(self.c[last:]))
        return out

    def _split_ws(self, maxsplit):
        out, curw = [], []
        for k, ch in enumerate(self.c):
            if mkbool(cin(_need_ascii(ch), SPACE)):
                if curw:
                    out.append(mkstr(curw))
                    curw = []
            else:
                if 0 <= maxsplit <= len(out) and not curw:
                    rest = mkstr(self.c[k:])
                    out.append(rest.rstrip() if rest else rest)
                    return out
                curw.append(ch)
        if curw:
            out.append(mkstr(curw))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            if maxsplit >= 0:
                raise Unsupported("rsplit(None, n)")
            return self._split_ws(-1)
        sc = chars_of(sep)
        if not sc:
            raise ValueError("empty separator")
        out, last, i = [], len(self.c), len(self.c) - len(sc)
        while i >= 0 and (maxsplit < 0 or len(out) < maxsplit):
            if self._at(sc, i):
                out.append(mkstr(self.c[i + len(sc) : last]))
                last = i
                i -= len(sc)
            else:
                i -= 1
        out.append(mkstr(self.c[:last]))
        return out[::-1]

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines on symbolic string")

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        n = len(sep)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + n :]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        n = len(sep)
        return (mkstr(self.c[:i]), sep, mkstr(self.c[i + n :]))

    def replace(self, old, new, count=-1):
        oc, nc = chars_of(old), chars_of(new)
        if not oc:
            raise Unsupported("replace of the empty string")
        out, i, k = [], 0, 0
        while i < len(self.c):
            if (
                (count < 0 or k < count)
                and i + len(oc) <= len(self.c)
                and self._at(oc, i)
            ):
                out.extend(nc)
                i += len(oc)
                k += 1
            else:
                out.append(self.c[i])
                i += 1
        return mkstr(out)

    def _strip_ranges(self, chars):
        if chars is None:
            return lambda c: mkbool(cin(_need_ascii(c), SPACE))
        cs = chars_of(chars)
        return lambda c: b_or(*[mkbool(ceq(c, k)) if type(k) is not int or type(c) is not int else c == k for k in cs])

    def lstrip(self, chars=None):
        f = self._strip_ranges(chars)
        i = 0
        while i < len(self.c) and f(self.c[i]):
            i += 1
        return mkstr(self.c[i:])

    def rstrip(self, chars=None):
        f = self._strip_ranges(chars)
        j = len(self.c)
        while j > 0 and f(self.c[j - 1]):
            j -= 1
        return mkstr(self.c[:j])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def _case(self, up):
        out = []
        for ch in self.c:
            ch = _need_ascii(ch)
            if type(ch) is int:
                out.extend(map(ord, chr(ch).upper() if up else chr(ch).lower()))
            elif up:
                out.append(z3.If(z3.And(ch >= 97, ch <= 122), ch - 32, ch))
            else:
                out.append(z3.If(z3.And(ch >= 65, ch <= 90), ch + 32, ch))
        return mkstr(_simp(c) if type(c) is not int else c for c in out)

    def upper(self):
        return self._case(True)

    def lower(self):
        return self._case(False)

    casefold = lower

    def capitalize(self):
        if not self.c:
            return ""
        head, tail = mkstr(self.c[:1]), mkstr(self.c[1:])
        return head.upper() + tail.lower()

    def _all(self, ranges):
        if not self.c:
            return False
        return b_and(*[mkbool(cin(_need_ascii(c), ranges)) for c in self.c])

    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return self._all(ALPHA)

    def isalnum(self):
        return self._all(ALNUM)

    def isspace(self):
        return self._all(SPACE)

    def isidentifier(self):
        if not self.c:
            return False
        return b_and(
            mkbool(cin(_need_ascii(self.c[0]), ALPHA + [(95, 95)])),
            *[mkbool(cin(_need_ascii(c), ALNUM + [(95, 95)])) for c in self.c[1:]],
        )

    def isascii(self):
        return b_and(*[mkbool(c < 128) if type(c) is not int else c < 128 for c in self.c])

    def isupper(self):
        low = [mkbool(cin(_need_ascii(c), LOWER)) for c in self.c]
        upp = [mkbool(cin(_need_ascii(c), UPPER)) for c in self.c]
        return b_and(b_not(b_or(*low)), b_or(*upp))

    def islower(self):
        low = [mkbool(cin(_need_ascii(c), LOWER)) for c in self.c]
        upp = [mkbool(cin(_need_ascii(c), UPPER)) for c in self.c]
        return b_and(b_not(b_or(*upp)), b_or(*low))

    def isprintable(self):
        return self._all([(32, 126)]) if self.c else True

    def join(self, xs):
        return sx_join(self, xs)

    def format(self, *a, **k):
        raise Unsupported("str.format on a symbolic format string")

    def zfill(self, n):
        if len(self.c) >= n:
            return self
        raise Unsupported("zfill")

    def translate(self, table):
        raise Unsupported("translate")

    def encode(self, encoding="utf-8", errors="strict"):
        return SymBytes(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            raise Unsupported(f"str.{name} on a symbolic string")
        raise AttributeError(f"'str' object has no attribute {name!r}")


class SymBytes:
    """the utf-8 encoding of a symbolic string: only .decode is modelled"""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, encoding="utf-8", errors="strict"):
        return self.s

    def __len__(self):
        raise Unsupported("len of symbolic bytes")


def sx_join(sep, xs):
    out, first, sc = [], True, chars_of(sep)
    for x in xs:
        xc = chars_of(x)
        if xc is None:
            raise TypeError("sequence item: expected str instance")
        if not first:
            out.extend(sc)
        out.extend(xc)
        first = False
    return mkstr(out)


def _ix(v):
    if v is None or type(v) is int:
        return v
    if type(v) is SymInt:
        return cur().concretize(v)
    return v


MAX_DIGITS = 20


def int_to_str(v):
    """decimal text of a symbolic int (branches on sign and digit count)"""
    if type(v) is not SymInt:
        return str(v)
    cx = cur()
    neg = cx.branch(v.e < 0)
    a = -v.e if neg else v.e
    n = 1
    while not cx.branch(a < 10**n):
        n += 1
        if n > MAX_DIGITS:
            raise Unsupported("str() of an unbounded symbolic int")
    ds = []
    for k in range(n - 1, -1, -1):
        ds.append(_simp((a / (10**k)) % 10 + 48))
    ds = [d.as_long() if z3.is_int_value(d) else d for d in ds]
    return mkstr(([45] if neg else []) + ds)


def str_to_int(s, base=10):
    """int(s) for a symbolic string: optional sign, ASCII digits (branches on shape)"""
    cx = cur()
    if base != 10:
        raise Unsupported("int(s, base)")
    t = s.strip()
    c = chars_of(t)
    neg = False
    if c and mkbool(ceq(c[0], 45)):
        neg, c = True, c[1:]
    elif c and mkbool(ceq(c[0], 43)):
        c = c[1:]
    bad = not c
    acc = z3.IntVal(0)
    if not bad:
        for ch in c:
            ch = _need_ascii(ch)
            if not mkbool(cin(ch, DIGIT)):
                if mkbool(ceq(ch, 95)):
                    raise Unsupported("int() of a string with underscores")
                bad = True
                break
            acc = acc * 10 + (ch - 48)
    if bad:
        raise ValueError("invalid literal for int() with base 10: '<symstr>'")
    return mkint(-acc if neg else acc)


# ---------------------------------------------------------------------------
# deep equality / truth used by harness oracles (never forks)
# ---------------------------------------------------------------------------


def deep_eq(a, b):
    """structural equality of plain data as ONE formula: bool | SymBool.

    bool and int are distinguished; dict key order is ignored, list order is not.
    """
    sa, sb = is_sym(a), is_sym(b)
    if sa or sb:
        ka = _kind(a)
        kb = _kind(b)
        if ka != kb:
            return False
        r = a == b
        if r is NotImplemented:
            return False
        return r
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return _dict_eq(a, b)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        return b_and(*[deep_eq(x, y) for x, y in zip(a, b)])
    return a == b


def _kind(x):
    t = type(x)
    if t is SymInt:
        return "int"
    if t is SymStr:
        return "str"
    if t is SymBool:
        return "bool"
    if t is SymReal:
        return "float"
    return t.__name__


def _dict_eq(a, b):
    if len(a) != len(b):
        return False
    symk = any(is_sym(k) for k in a) or any(is_sym(k) for k in b)
    if not symk:
        if set(a) != set(b):
            return False
        return b_and(*[deep_eq(a[k], b[k]) for k in a])
    # keys of each dict are pairwise distinct on this path, so a matching is a
    # bijection iff every key of a has an equal partner in b
    parts = []
    for k, v in a.items():
        parts.append(b_or(*[b_and(deep_eq(k, k2), deep_eq(v, v2)) for k2, v2 in b.items()]))
    return b_and(*parts)


# ---------------------------------------------------------------------------
# contexts
# ---------------------------------------------------------------------------


class Violation(Exception):
    pass


class Stats:
    def __init__(self):
        self.paths = 0
        self.completed = 0
        self.infeasible = 0
        self.inconclusive = 0
        self.decisions = 0
        self.branches = 0
        self.checks = 0
        self.obligations = 0  # solver-discharged property queries
        self.trivial_checks = 0  # checks constant-folded to true on the path
        self.queries = 0
        self.solver_s = 0.0
        self.validated = 0
        self.mismatch = 0

    def add(self, o):
        for k, v in vars(o).items():
            setattr(self, k, getattr(self, k) + v)


class Decision:
    """One point on the current path.

    kind 'b': boolean branch on `cond` (taken value `val`).
    kind 'c': n-way choice variable (taken index `val`).
    kind 'a': an assumption / domain constraint (no alternative).
    """

    __slots__ = ("kind", "cond", "val", "n", "key", "done")

    def __init__(self, kind, cond, val, n=0, key=None):
        self.kind, self.cond, self.val, self.n, self.key = kind, cond, val, n, key
        self.done = False


class SymCtx:
    symbolic = True

    def __init__(self, stats, limits):
        self.stats = stats
        self.limits = limits
        self.solver = z3.Solver()
        self.solver.set("timeout", int(limits.get("query_ms", 20000)))
        self.path: list[Decision] = []
        self.pos = 0
        self.model = None
        self.vars: dict[str, object] = {}
        self.label_n: dict[str, int] = {}
        self.obs: list = []
        self.covers: set[str] = set()
        self.violations: list = []
        self.deadline = None
        self.notes: set[str] = set()
        self.flag_symkeys = False
        self.forced: list = []  # prefix of decisions fixed by the scheduler

    # -- life cycle of one path
    def start_path(self):
        self.pos = 0
        self.vars = {}
        self.label_n = {}
        self.obs = []
        self.flag_symkeys = False
        self.known = {}  # condition already decided on this path -> (cond, value)

    # -- solver plumbing
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.notes.add("solver unknown: " + self.solver.reason_unknown())
        return r

    def _push(self, d):
        self.solver.push()
        self.solver.add(self._formula(d))

    def _formula(self, d):
        if d.kind == "b":
            return d.cond if d.val else z3.Not(d.cond)
        if d.kind == "c":
            return d.cond == d.val
        return d.cond

    def _holds_in_model(self, f):
        if self.model is None:
            return None
        v = self.model.eval(f, model_completion=True)
        if _is_t(v):
            return True
        if _is_f(v):
            return False
        return None

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Unsupported("solver returned unknown on the path condition")
            self.model = self.solver.model()

    def _replaying(self):
        return self.pos < len(self.path)

    def tick(self):
        if self.deadline is not None and time.perf_counter() > self.deadline:
            raise Budget("time budget")

    # -- decisions
    def branch(self, cond):
        cond = _simp(cond)
        if _is_t(cond):
            return True
        if _is_f(cond):
            return False
        if z3.is_not(cond):
            return not self._branch(cond.arg(0))
        return self._branch(cond)

    def _branch(self, cond):
        k = self.known.get(cond.get_id())
        if k is not None:
            return k[1]
        v = self._branch_new(cond)
        self.known[cond.get_id()] = (cond, v)
        return v

    def _branch_new(self, cond):
        if self._replaying():
            d = self.path[self.pos]
            if d.kind != "b":
                raise Unsupported("nondeterministic re-execution")
            self.pos += 1
            return d.val
        self.tick()
        if len(self.path) >= self.limits.get("max_depth", 4000):
            raise Budget("path too long")
        if len(self.path) < len(self.forced):
            d = Decision("b", cond, bool(self.forced[len(self.path)][0]))
            d.done = True
            self.path.append(d)
            self._push(d)
            self.model = None
            self.pos += 1
            return d.val
        self.stats.branches += 1
        self._ensure_model()
        first = self._holds_in_model(cond)
        if first is None:
            first = True
            r = self._check(cond)
            if r != z3.sat:
                first = False
        d = Decision("b", cond, first)
        # is the other side feasible?  decided now so `done` is known
        other = z3.Not(cond) if first else cond
        r = self._check(other)
        d.done = r == z3.unsat
        if r == z3.unknown:
            self.notes.add("branch feasibility unknown; explored")
        self.path.append(d)
        self._push(d)
        self.pos += 1
        self.stats.decisions += 0 if d.done else 1
        return first

    def _choice_var(self, label, n):
        key = self._key(label)
        v = z3.Int(key)
        self.vars[key] = v
        return key, v

    def _key(self, label):
        k = self.label_n.get(label, 0)
        self.label_n[label] = k + 1
        return label if k == 0 else f"{label}#{k}"

    def choose(self, label, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        key, v = self._choice_var(label, len(options))
        if self._replaying():
            d = self.path[self.pos]
            if d.kind != "c" or d.key != key:
                raise Unsupported("nondeterministic re-execution")
            self.pos += 1
            return options[d.val]
        self.tick()
        if len(self.path) < len(self.forced):
            d = Decision("c", v, self.forced[len(self.path)][0], len(options), key)
            d.done = True
            self.path.append(d)
            self._push(d)
            self.model = None
            self.pos += 1
            return options[d.val]
        self.stats.branches += 1
        d = Decision("c", v, 0, len(options), key)
        self.path.append(d)
        self._push(d)
        self.pos += 1
        self.stats.decisions += 1
        # an unconstrained fresh variable: option 0 is feasible iff the path is
        self.model = None
        return options[0]

    def bool(self, label):
        return self.choose(label, (False, True))

    def assume(self, cond):
        if not isinstance(cond, z3.BoolRef):
            if type(cond) is SymBool:
                cond = cond.e
            elif cond:
                return
            else:
                raise Infeasible()
        cond = _simp(cond)
        if _is_t(cond):
            return
        if self._replaying():
            self.pos += 1
            return
        d = Decision("a", cond, True)
        d.done = True
        self.path.append(d)
        self._push(d)
        self.pos += 1
        if self._holds_in_model(cond) is not True:
            self.model = None
            self._ensure_model()

    # -- inputs
    def int(self, label, lo=None, hi=None):
        key = self._key(label)
        v = z3.Int(key)
        self.vars[key] = v
        cs = []
        if lo is not None:
            cs.append(v >= lo)
        if hi is not None:
            cs.append(v <= hi)
        if cs:
            self.assume(z3.And(*cs))
        return SymInt(v)

    def str(self, label, min_len=1, max_len=1, ranges=((33, 126),), first=None):
        key = self._key(label)
        n = self.choose(key + ".len", range(min_len, max_len + 1))
        if max_len == min_len:
            self.vars[key + ".len"] = n
        cs, vs = [], []
        for i in range(n):
            v = z3.Int(f"{key}[{i}]")
            rs = list(first) if (i == 0 and first) else list(ranges)
            cs.append(cin(v, rs))
            vs.append(v)
        self.vars[key] = vs
        if cs:
            self.assume(z3.And(*cs))
        return mkstr(vs)

    def concretize(self, x):
        """fork over the feasible values of a symbolic int (bounded)"""
        if type(x) is SymBool:
            return bool(x)
        if type(x) is not SymInt:
            return x
        e = _simp(x.e)
        for _ in range(self.limits.get("max_concretize", 300)):
            if z3.is_int_value(e):
                return e.as_long()
            if self._replaying():
                d = self.path[self.pos]
                # cond is `e == v`
                v = d.key
            elif len(self.path) < len(self.forced):
                v = self.forced[len(self.path)][1]
            else:
                self._ensure_model()
                v = self.model.eval(e, model_completion=True).as_long()
            if self._branch_eq(e, v):
                return v
        raise Unsupported("too many values to concretize")

    def _branch_eq(self, e, v):
        before = len(self.path)
        r = self.branch(e == v)
        if len(self.path) > before:
            self.path[before].key = v
        return r

    # -- property
    def check(self, cond, msg=""):
        self.stats.checks += 1
        if type(cond) is SymBool:
            f = _simp(z3.Not(cond.e))
            self.stats.obligations += 1
            m0 = self._holds_in_model(f)
            if m0 is True:
                self.fail(msg, self.model)
            r = self._check(f)
            if r == z3.sat:
                self.fail(msg, self.solver.model())
            if r == z3.unknown:
                raise Unsupported("solver unknown on property: " + str(msg))
            # holds on this path: nothing to add (it is implied)
        elif cond:
            self.stats.trivial_checks += 1
        else:
            self._ensure_model()
            self.fail(msg, self.model)

    def fail(self, msg, model):
        self.violations.append((str(msg), self.assignment(model)))
        raise StopPath()

    def assignment(self, model=None):
        if model is None:
            self._ensure_model()
            model = self.model
        out = {}

        def val(z):
            if isinstance(z, int):
                return z
            return model.eval(z, model_completion=True).as_long()

        for k, v in self.vars.items():
            if isinstance(v, list):
                out[k] = "".join(chr(val(x)) for x in v)
            else:
                out[k] = val(v)
        return out

    def observe(self, label, value):
        self.obs.append((label, value))

    def cover(self, label):
        self.covers.add(label)

    def skip(self):
        raise Infeasible()

    def frontier(self):
        """the unexplored alternatives of the current path, as forced prefixes"""
        out, pre = [], []
        for d in self.path:
            if not d.done:
                if d.kind == "b":
                    out.append(pre + [[not d.val, d.key]])
                elif d.kind == "c":
                    for v in range(d.val + 1, d.n):
                        out.append(pre + [[v, d.key]])
            pre.append([d.val, d.key])
        return out

    # -- backtracking
    def backtrack(self):
        """move to the next unexplored path; False when exhausted"""
        while self.path:
            d = self.path.pop()
            self.solver.pop()
            if d.done:
                continue
            if d.kind == "b":
                d.val = not d.val
                d.done = True
            else:
                d.val += 1
                d.done = d.val >= d.n - 1
            self.path.append(d)
            self._push(d)
            self.model = None
            return True
        return False


def eval_plain(v, model):
    """evaluate a nested plain structure with symbolic leaves under a model"""
    t = type(v)
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_long()
    if t is SymBool:
        return _is_t(model.eval(v.e, model_completion=True))
    if t is SymStr:
        return "".join(
            chr(c if type(c) is int else model.eval(c, model_completion=True).as_long())
            for c in v.c
        )
    if t is SymReal:
        f = model.eval(v.e, model_completion=True).as_fraction()
        return float(f)
    if isinstance(v, dict):
        return {eval_plain(k, model): eval_plain(x, model) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [eval_plain(x, model) for x in v]
    return v


class ConcreteCtx:
    """Replays one assignment through the same harness on the REAL code."""

    symbolic = False

    def __init__(self, assign):
        self.assign = assign
        self.label_n = {}
        self.obs = []
        self.violation = None
        self.covers = set()

    def _key(self, label):
        k = self.label_n.get(label, 0)
        self.label_n[label] = k + 1
        return label if k == 0 else f"{label}#{k}"

    def choose(self, label, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self.assign.get(self._key(label), 0)
        return options[min(max(i, 0), len(options) - 1)]

    def bool(self, label):
        return self.choose(label, (False, True))

    def int(self, label, lo=None, hi=None):
        v = self.assign.get(self._key(label))
        if v is None:
            v = lo if lo is not None else (hi if hi is not None else 0)
        return v

    def str(self, label, min_len=1, max_len=1, ranges=((33, 126),), first=None):
        key = self._key(label)
        n = self.choose(key + ".len", range(min_len, max_len + 1))
        v = self.assign.get(key)
        if v is None:
            v = chr(ranges[0][0]) * n
        return v

    def assume(self, cond):
        if not cond:
            raise Infeasible()

    def check(self, cond, msg=""):
        if not cond:
            self.violation = str(msg)
            raise StopPath()

    def observe(self, label, value):
        self.obs.append((label, value))

    def cover(self, label):
        self.covers.add(label)

    def skip(self):
        raise Infeasible()


# helpers for harness code usable in both modes ------------------------------


def all_of(*xs):
    return b_and(*xs)


def any_of(*xs):
    return b_or(*xs)


def neg(x):
    return b_not(x)


def implies(a, b):
    return b_or(b_not(a), b)
