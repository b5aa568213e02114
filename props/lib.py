"""shared pieces of the harnesses: type generators, normal form, outcomes"""

import recap.types as T
from symx.core import all_of, any_of, deep_eq, neg  # noqa: F401

IDENT = ((97, 122), (95, 95), (48, 57), (65, 90))
IDENT1 = ((97, 122), (95, 95), (65, 90))
ANYCH = ((1, 0xD7FF), (0xE000, 0x10FFFF))
TEXT = ((32, 126),)

I31 = 2_147_483_647
I63 = 9_223_372_036_854_775_807

def _s(kind, logical=None, extra=None, **kw):
    return dict(
        {"kind": kind, "logical": logical, "alias": None, "doc": None, "extra": extra or {}},
        **kw,
    )


def builtin_table():
    """The published alias table as structural normal forms; written from the
    Recap type specification, independent of recap.types.BUILTIN_ALIASES."""
    t = {}
    for n in (8, 16, 32, 64):
        t[f"int{n}"] = _s("int", bits=n, signed=True)
        t[f"uint{n}"] = _s("int", bits=n, signed=False)
    for n in (16, 32, 64):
        t[f"float{n}"] = _s("float", bits=n)
    for k in ("string", "bytes"):
        t[f"{k}32"] = _s(k, bytes_=2_147_483_648, variable=True)
        t[f"{k}64"] = _s(k, bytes_=I63, variable=True)
    t["uuid"] = _s("string", "build.recap.UUID", bytes_=36, variable=False)
    for n, w, p, sc in (("decimal128", 16, 28, 14), ("decimal256", 32, 56, 28)):
        t[n] = _s(
            "bytes", "build.recap.Decimal", {"precision": p, "scale": sc}, bytes_=w, variable=False
        )
    ms, sec, day = ({"unit": u} for u in ("millisecond", "second", "day"))
    t["duration64"] = _s("int", "build.recap.Duration", ms, bits=64, signed=True)
    t["interval128"] = _s("bytes", "build.recap.Interval", ms, bytes_=16, variable=False)
    for n in (32, 64):
        t[f"time{n}"] = _s("int", "build.recap.Time", sec, bits=n, signed=True)
        t[f"date{n}"] = _s("int", "build.recap.Date", day, bits=n, signed=True)
    t["timestamp64"] = _s(
        "int", "build.recap.Timestamp", dict(ms, timezone="UTC"), bits=64, signed=True
    )
    return t


BUILTIN = builtin_table()


def overrides(cx, name):
    """attributes of a reference that replace those of the built-in alias"""
    b = BUILTIN[name]
    could = [""]
    if "bits" in b:
        could += ["bits", "signed"] if b["kind"] == "int" else ["bits"]
    if "bytes_" in b:
        could += ["bytes", "variable"]
    could += [k for k in ("precision", "unit") if k in b["extra"]]
    k = cx.choose("override", tuple(could))
    if k == "bits":
        return {k: cx.int("bits", 1, 64)}
    if k in ("signed", "variable"):
        return {k: not b[k]}
    if k == "bytes":
        return {"bytes": cx.int("bytes", 1, I63)}
    if k == "precision":
        return {k: cx.int("precision", 1, 40), "scale": cx.int("scale", 0, 20)}
    if k == "unit":
        return {k: cx.choose("unit", ("second", "millisecond", "microsecond", "nanosecond", "day"))}
    return {}


def attempt(fn, *a, **k):
    """('ok', value) or ('err', exception class name)"""
    try:
        return ("ok", fn(*a, **k))
    except Exception as e:
        return ("err", type(e).__name__)


def why(r):
    """class name of the exception of attempt(), for messages"""
    return r[1] if r[0] == "err" else "ok"


WORDS = ("type", "name", "fields", "properties", "items", "required", "values", "symbols", "default", "doc", "description", "$id", "$ref", "$defs", "alias", "logical", "null", "extra_attrs")
_words = []


def words(harness, ok=None):
    """the harness again, with a name that means something to one of the formats
    in place of the first symbolic one"""

    def run(cx, **kw):
        _words[:] = [tuple(w for w in WORDS if ok is None or ok(w))]
        try:
            harness(cx, **kw)
        finally:
            _words.clear()

    return run


def field_name(cx, label, lo, hi, ranges, suffix=""):
    if _words:
        return cx.choose(label + ".word", _words.pop())
    return cx.str(label, lo, hi, ranges) + suffix


class Deco:
    """optional attributes: at most `budget` of them present in one tree"""

    def __init__(self, cx, budget, only=None, rich=False, defaults=None):
        self.cx, self.left, self.only, self.rich = cx, budget, only, rich
        self.defaults = tuple(
            defaults
            or (("none", "int", "false", "str", "list") if rich else ("none", "int", "false"))
        )
        self.n = 0

    def want(self, label):
        if self.left <= 0:
            return False
        if self.only is not None and label not in self.only:
            return False
        if self.cx.bool(f"deco.{label}"):
            self.left -= 1
            return True
        return False

    def attrs(self, kinds=("logical", "alias", "doc", "name", "default", "extra")):
        cx = self.cx
        out = {}
        for k in kinds:
            if not self.want(k):
                continue
            if k == "logical":
                out["logical"] = cx.str("logical", 1, 1, TEXT)
            elif k == "alias":
                self.n += 1
                # a fully qualified name, unique within the tree
                out["alias"] = (
                    cx.str("alias", 1, 1, IDENT, first=IDENT1)
                    + "."
                    + f"n{self.n}"
                )
            elif k == "doc":
                out["doc"] = cx.str("doc", 0, 1, TEXT) if self.rich else cx.str("doc", 1, 1, TEXT)
            elif k == "name":
                out["name"] = cx.str("name", 1, 1, TEXT)
            elif k == "default":
                out["default"] = gen_default(cx, self.defaults)
            elif k == "extra":
                out["unit"] = cx.str("unit", 1, 1, TEXT)
        return out


def gen_default(cx, kinds=("none", "int", "false")):
    k = cx.choose("default.kind", kinds)
    if k == "none":
        return None
    if k == "int":
        return cx.int("default.int")
    if k == "str":
        return cx.str("default.str", 0, 1, TEXT)
    if k == "false":
        return False
    return []


LEAVES = ("null", "bool", "int", "float", "string", "bytes", "enum", "proxy")


def gen_type(cx, shape, deco, registry=None):
    """shape: 'int' | ['list', s] | ['map', k, v] | ['struct', ...] | ['union', ...]"""
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else shape[1:]
    if kind == "null":
        return T.NullType(**deco.attrs())
    if kind == "bool":
        return T.BoolType(**deco.attrs())
    if kind == "int":
        bits = cx.int("bits", 1, I31)
        return T.IntType(bits, signed=cx.bool("signed"), **deco.attrs())
    if kind == "wide":  # an int no built-in alias can match: does not fork on them
        return T.IntType(cx.int("bits", 65, I31), signed=cx.bool("signed"), **deco.attrs())
    if kind == "narrow":
        return T.IntType(cx.int("bits", 1, 64), signed=cx.bool("signed"), **deco.attrs())
    if kind == "text":  # a string likewise
        return T.StringType(bytes_=cx.int("bytes", 37, 2_000_000_000), **deco.attrs())
    if kind == "float":
        return T.FloatType(cx.int("bits", 1, I31), **deco.attrs())
    if kind in ("string", "bytes"):
        c = T.StringType if kind == "string" else T.BytesType
        variable = cx.bool("variable")
        if variable and not cx.bool("sized"):
            return c(variable=True, **deco.attrs())
        return c(bytes_=cx.int("bytes", 1, I63), variable=variable, **deco.attrs())
    if kind == "enum":
        return T.EnumType(
            # symbols in any order, whether compared by letters or by length
            [cx.str("symbol", 1, 1, TEXT) + "_" * (i == 0) for i in range(cx.choose("nsym", (0, 1, 2)) if deco.rich else 2)],
            **deco.attrs(),
        )
    if kind == "proxy":
        a = deco.attrs(("doc", "name", "default", "extra"))
        alias = cx.choose("proxy", ("int32", "x.y") if not deco.rich else ("int32", "uint8", "float64", "string32", "bytes64", "decimal128", "timestamp64", "x.y"))
        return T.ProxyType(alias, registry or T.RecapTypeRegistry(), **a)
    if kind == "bproxy":
        a = deco.attrs(("doc", "name", "default", "extra"))
        return T.ProxyType(cx.choose("proxy", ("int32", "string32")), T.RecapTypeRegistry(), **a)
    if kind == "list":
        values = gen_type(cx, sub[0], deco, registry)
        variable = cx.bool("variable")
        if variable and not cx.bool("sized"):
            return T.ListType(values, **deco.attrs())
        return T.ListType(
            values, length=cx.int("length", 1, I63), variable=variable, **deco.attrs()
        )
    if kind == "map":
        return T.MapType(
            gen_type(cx, sub[0], deco, registry),
            gen_type(cx, sub[1], deco, registry),
            **deco.attrs(),
        )
    if kind == "struct":
        return T.StructType([gen_type(cx, s, deco, registry) for s in sub], **deco.attrs())
    if kind == "union":
        return T.UnionType([gen_type(cx, s, deco, registry) for s in sub], **deco.attrs())
    raise AssertionError(kind)


def norm(t, expand=True):
    """Structural normal form over public attributes only (independent of the
    code's own __eq__/to_dict).  Built-in alias references are expanded."""
    if not isinstance(t, T.RecapType):
        return {"?": str(type(t))}
    d = {
        "kind": t.type_,
        "logical": t.logical,
        "alias": t.alias,
        "doc": t.doc,
        "extra": dict(t.extra_attrs),
    }
    if isinstance(t, T.ProxyType):
        if expand and t.alias in BUILTIN:
            b = BUILTIN[t.alias]
            d2 = dict(b)
            d2["extra"] = dict(b["extra"])
            if t.doc is not None:
                d2["doc"] = t.doc
            if t.logical is not None:
                d2["logical"] = t.logical
            for k, v in t.extra_attrs.items():
                k2 = "bytes_" if k == "bytes" else k
                if k2 in ("bits", "signed", "bytes_", "variable") and k2 in d2:
                    d2[k2] = v
                else:
                    d2["extra"][k] = v
            return d2
        return d
    for k in ("bits", "signed", "bytes_", "variable", "length", "symbols"):
        if hasattr(t, k):
            v = getattr(t, k)
            d[k] = list(v) if isinstance(v, (list, tuple)) else v
    for k in ("values", "keys"):
        if isinstance(getattr(t, k, None), T.RecapType):
            d[k] = norm(getattr(t, k), expand)
    for k in ("fields", "types"):
        v = getattr(t, k, None)
        if isinstance(v, (list, tuple)):
            d[k] = [norm(x, expand) for x in v]
    return d


def freeze(x):
    """deep snapshot of plain data / Recap types, for purity checks"""
    if isinstance(x, T.RecapType):
        return norm(x, False)
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [freeze(v) for v in x]
    return x
