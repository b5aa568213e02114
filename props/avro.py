"""C08 Recap -> Avro, C09 Avro -> Recap"""

import json

import recap.types as T
from props.lib import (
    BUILTIN,
    overrides,
    I31,
    I63,
    TEXT,
    Deco,
    all_of,
    any_of,
    attempt,
    deep_eq,
    field_name,
    freeze,
    gen_default,
    gen_type,
    neg,
    norm,
    words,
)
from recap.converters.avro import AvroConverter

# --------------------------------------------------------------------------
# C08: what Avro schema a Recap type must become (Avro 1.11 + the documented
# mapping); works on the structural normal form


class Unmappable(Exception):
    pass


def canon(s):
    """canonical form: shorthand strings/lists/nested {"type": {...}} removed"""
    if isinstance(s, str):
        return {"type": s}
    if isinstance(s, list):
        return {"type": [canon(x) for x in s]}
    out = dict(s)
    t = out.get("type")
    if isinstance(t, list):
        out["type"] = [canon(x) for x in t]
    elif isinstance(t, dict):
        inner = canon(t)
        out.pop("type")
        out = dict(inner, **out)
    for k in ("items", "values"):
        if k in out:
            out[k] = canon(out[k])
    if "fields" in out:
        out["fields"] = [canon(f) for f in out["fields"]]
    return out


def expect_logical(n):
    """Avro logical type for a Recap logical type, on the normal form"""
    kind, lg, ex = n["kind"], n["logical"], n["extra"]
    unit = ex.get("unit")
    if kind == "bytes":
        if lg == "build.recap.Decimal" and "precision" in ex and n["bytes_"] is not None:
            return {
                "type": "bytes",
                "logicalType": "decimal",
                "precision": ex["precision"],
                "scale": ex.get("scale", 0),
            }
        if (
            lg == "build.recap.Interval"
            and not n["variable"]
            and n["bytes_"] == 12
            and unit == "millisecond"
        ):
            return {"type": "fixed", "logicalType": "duration", "size": 12}
    if kind == "string" and lg == "build.recap.UUID" and n["bytes_"] is not None:
        return {"type": "string", "logicalType": "uuid"}
    if kind == "int" and n["signed"]:
        if lg == "build.recap.Date" and n["bits"] <= 32:
            return {"type": "int", "logicalType": "date"}
        if lg == "build.recap.Time":
            if unit == "millisecond" and n["bits"] <= 32:
                return {"type": "int", "logicalType": "time-millis"}
            if unit == "microsecond" and n["bits"] <= 64:
                return {"type": "long", "logicalType": "time-micros"}
        if lg == "build.recap.Timestamp" and n["bits"] <= 64:
            if unit == "millisecond":
                return {"type": "long", "logicalType": "timestamp-millis"}
            if unit == "microsecond":
                return {"type": "long", "logicalType": "timestamp-micros"}
    raise Unmappable()


def expect(n):
    out = {}
    if n["doc"]:
        out["doc"] = n["doc"]
    if n["extra"].get("name"):
        out["name"] = n["extra"]["name"]
    if "default" in n["extra"]:
        out["default"] = n["extra"]["default"]
    kind = n["kind"]
    if kind == "proxy":
        out["type"] = n["alias"]
        return out
    if n["alias"] is not None:
        out["aliases"] = [n["alias"]]
    if n["logical"] is not None:
        out.update(expect_logical(n))
    elif kind == "null":
        out["type"] = "null"
    elif kind == "bool":
        out["type"] = "boolean"
    elif kind == "int":
        # the narrowest Avro integer that holds every value
        value_bits = n["bits"] - (1 if n["signed"] else 0)
        if value_bits <= 31:
            # an unsigned 31-bit (or narrower) integer would fit an int, too;
            # Recap publishes int for signed and long for unsigned
            out["type"] = "int" if n["signed"] else "long"
        elif value_bits <= 63 and (n["signed"] or n["bits"] <= 32):
            out["type"] = "long"
        else:
            out["type"] = "bytes"
            out["logicalType"] = "decimal"
            out["precision"] = ("digits", value_bits)
    elif kind == "float":
        if n["bits"] > 64:
            raise Unmappable()
        out["type"] = "float" if n["bits"] <= 32 else "double"
    elif kind == "string":
        out["type"] = "string"
    elif kind == "bytes":
        if n["variable"]:
            out["type"] = "bytes"
        else:
            out["type"] = "fixed"
            out["size"] = n["bytes_"]
    elif kind == "enum":
        out["type"] = "enum"
        out["symbols"] = n["symbols"]
    elif kind == "list":
        out["type"] = "array"
        out["items"] = expect(n["values"])
    elif kind == "map":
        if n["keys"]["kind"] != "string":
            raise Unmappable()
        out["type"] = "map"
        out["values"] = expect(n["values"])
    elif kind == "struct":
        out["type"] = "record"
        out["fields"] = [expect(f) for f in n["fields"]]
    elif kind == "union":
        out["type"] = [expect(t) for t in n["types"]]
    else:
        raise Unmappable()
    return out


def digits_fit(cx, got, want):
    """replace ("digits", b) by the number of decimal digits that always fit in
    b bits: 10^p <= 2^b < 10^(p+1)"""
    if isinstance(want, dict):
        p = want.get("precision")
        if isinstance(p, tuple):
            b = cx.concretize(p[1]) if cx.symbolic else p[1]
            d = 0
            while 10 ** (d + 1) <= 2**b:
                d += 1
            want["precision"] = d
        for k, v in want.items():
            digits_fit(cx, None, v)
    elif isinstance(want, list):
        for v in want:
            digits_fit(cx, None, v)


def write_one(cx, t):
    n = norm(t)
    t0 = freeze(t)
    try:
        want = expect(n)
    except Unmappable:
        want = None
    got = attempt(AvroConverter().from_recap, t)
    cx.check(deep_eq(freeze(t), t0), "from_recap modified the type")
    if want is None:
        cx.check(got == ("err", "ValueError"), "a type Avro cannot express is not rejected with ValueError")
        cx.cover("unmappable")
        return
    cx.check(got[0] == "ok", "a type Avro can express was rejected")
    digits_fit(cx, None, want)
    cx.observe("avro", got[1])
    cx.check(isinstance(got[1], dict), "the Avro schema is not a dictionary")
    cx.check(deep_eq(canon(got[1]), want), "the Avro schema does not describe the type")
    cx.cover("mapped")


def write(cx, shape, budget):
    write_one(cx, gen_type(cx, shape, Deco(cx, budget)))


NEAR = (93, 196, 485, 1000, 2136, 4004, 8192, 13301, 14000)


def write_int(cx, hi, where):
    if hi == "wide":
        # where powers of two and of ten are closest, and around
        bits = cx.choose("bits", (512, 1024, 4096)) if where != "top" else cx.choose("near", NEAR) + cx.choose("off", (-1, 0, 1))
    else:
        bits = cx.int("bits", 1, hi)
    t = T.IntType(bits, signed=cx.bool("signed"))
    if where == "field":
        t.extra_attrs["name"] = "f"
        t = T.StructType([t])
    elif where == "list":
        t = T.ListType(t)
    write_one(cx, t)


LOGICALS = (
    "build.recap.Date",
    "build.recap.Time",
    "build.recap.Timestamp",
    "build.recap.Decimal",
    "build.recap.Interval",
    "build.recap.UUID",
    "build.recap.Duration",
    "x.Custom",
)
UNITS = ("none", "second", "millisecond", "microsecond", "nanosecond", "day")


def gen_logical(cx, kind):
    lg = cx.choose("logical", LOGICALS)
    extra = {"logical": lg}
    unit = cx.choose("unit", UNITS)
    if unit != "none":
        extra["unit"] = unit
    if kind == "int":
        return T.IntType(cx.int("bits", 1, I31), signed=cx.bool("signed"), **extra)
    if kind == "bytes":
        if cx.bool("precision"):
            extra["precision"] = cx.int("precision.n", 1, 1000)
            if cx.bool("scale"):
                extra["scale"] = cx.int("scale.n", 0, 1000)
        return T.BytesType(
            bytes_=cx.int("bytes", 1, I63), variable=cx.bool("variable"), **extra
        )
    return T.StringType(
        bytes_=cx.int("bytes", 1, I63), variable=cx.bool("variable"), **extra
    )


def write_logical(cx, kind, where):
    t = gen_logical(cx, kind)
    if where == "field":
        t.extra_attrs["name"] = cx.str("name", 1, 1, TEXT)
        t.doc = cx.str("doc", 1, 1, TEXT)
        t = T.StructType([T.BoolType(name="z"), t])
    elif where == "optional":
        t = T.UnionType([T.NullType(), t], default=None, name="f")
    elif where == "list":
        t = T.ListType(t)
    write_one(cx, t)


def write_builtin(cx, where):
    """references to built-in aliases become what they stand for"""
    name = cx.choose("alias", tuple(BUILTIN))
    extra = Deco(cx, 2).attrs(("doc", "name", "default"))
    extra.update(overrides(cx, name))
    t = T.ProxyType(name, T.RecapTypeRegistry(), **extra)
    if where == "field":
        t = T.StructType([t])
    elif where == "list":
        t = T.ListType(t)
    elif where == "values":
        t = T.MapType(T.ProxyType("string32", T.RecapTypeRegistry()), t)
    elif where == "union":
        t = T.UnionType([T.NullType(), t], default=None)
    write_one(cx, t)


# --------------------------------------------------------------------------
# C09

PRIMITIVES = {
    "null": lambda: T.NullType(),
    "boolean": lambda: T.BoolType(),
    "int": lambda: T.IntType(32, signed=True),
    "long": lambda: T.IntType(64, signed=True),
    "float": lambda: T.FloatType(32),
    "double": lambda: T.FloatType(64),
    "bytes": lambda: T.BytesType(I63),
    "string": lambda: T.StringType(I63),
}

LOGICAL_READ = {
    "date": ("int", "int", 32, "build.recap.Date", "day"),
    "time-millis": ("int", "int", 32, "build.recap.Time", "millisecond"),
    "time-micros": ("long", "int", 64, "build.recap.Time", "microsecond"),
    "timestamp-millis": ("long", "int", 64, "build.recap.Timestamp", "millisecond"),
    "timestamp-micros": ("long", "int", 64, "build.recap.Timestamp", "microsecond"),
}


class Names:
    def __init__(self, cx):
        self.cx, self.n = cx, 0
        self.defs = []  # [alias, namespace, name, what it defines], in the order of definition
        self.recursive, self.typedocs = False, True

    def name(self, label, first=((65, 90), (97, 122), (95, 95))):
        self.n += 1
        if label == "field":
            return field_name(self.cx, label, 1, 1, first, f"{self.n}")
        return self.cx.str(label, 1, 1, first) + f"{self.n}"


def b(kind, **kw):
    d = {"kind": kind, "logical": None, "alias": None, "doc": None, "extra": {}}
    d.update(kw)
    return d


def gen_avro(cx, shape, ns, names):
    """-> (avro schema, expected normal form without name/default/doc of a field)"""
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else shape[1:]
    if kind in PRIMITIVES:
        s = kind if cx.bool("bare") else {"type": kind}
        return s, norm(PRIMITIVES[kind]())
    if kind == "prim":
        k = cx.choose("primitive", tuple(PRIMITIVES))
        return k, norm(PRIMITIVES[k]())
    if kind in LOGICAL_READ or kind == "timelike":
        if kind == "timelike":
            kind = cx.choose("logicalType", tuple(LOGICAL_READ))
        base, rk, bits, lg, unit = LOGICAL_READ[kind]
        return (
            {"type": base, "logicalType": kind},
            b(rk, logical=lg, bits=bits, signed=True, extra={"unit": unit}),
        )
    if kind == "uuid":
        return (
            {"type": "string", "logicalType": "uuid"},
            b("string", logical="build.recap.UUID", bytes_=36, variable=False),
        )
    if kind == "decimal":
        p = cx.int("precision", 1, 1000)
        s = {"type": "bytes", "logicalType": "decimal", "precision": p}
        sc = 0
        if cx.bool("scale"):
            sc = cx.int("scale.n", 0, 1000)
            s["scale"] = sc
        return s, b(
            "bytes",
            logical="build.recap.Decimal",
            bytes_=I63,
            variable=None,
            extra={"precision": p, "scale": sc},
        )
    if kind == "array":
        s, e = gen_avro(cx, sub[0], ns, names)
        return {"type": "array", "items": s}, b("list", values=e, length=None, variable=True)
    if kind == "map":
        s, e = gen_avro(cx, sub[0], ns, names)
        return {"type": "map", "values": s}, b("map", keys=norm(T.StringType(I63)), values=e)
    if kind == "union":
        ss = [gen_avro(cx, x, ns, names) for x in sub]
        return [x[0] for x in ss], b("union", types=[x[1] for x in ss])
    # named types
    s, e = {}, {}
    name = names.name("typename")
    how = cx.choose("naming", ("plain", "namespace", "dotted"))
    if how == "plain":
        s["name"] = name
        full_ns = ns
    elif how == "namespace":
        full_ns = "q." + cx.str("ns", 1, 1, ((97, 122), (65, 90)))
        s["name"] = name
        s["namespace"] = full_ns
    else:
        full_ns = "d." + cx.str("ns", 1, 1, ((97, 122), (65, 90)))
        s["name"] = full_ns + "." + name
    alias = (full_ns or "_root") + "." + name
    doc = None
    this = [alias, full_ns, name, None]
    if names.recursive:
        names.defs.append(this)
    if names.typedocs and cx.bool("typedoc"):
        doc = cx.str("typedoc.s", 1, 1, TEXT)
        s["doc"] = doc
    if kind == "enum":
        syms = [cx.str("symbol", 1, 1, ((65, 90),)) + f"{i}" for i in range(2)]
        s.update(type="enum", symbols=syms)
        e = b("enum", symbols=syms)
    elif kind == "fixed":
        n = cx.int("size", 1, I63)
        s.update(type="fixed", size=n)
        e = b("bytes", bytes_=n, variable=None)
    elif kind == "fixeddec":
        n, p = cx.int("size", 1, I63), cx.int("precision", 1, 1000)
        s.update(type="fixed", size=n, logicalType="decimal", precision=p)
        e = b(
            "bytes",
            logical="build.recap.Decimal",
            bytes_=n,
            variable=None,
            extra={"precision": p, "scale": 0},
        )
    elif kind == "record":
        fs = [gen_field(cx, x, full_ns, names) for x in sub]
        s.update(type="record", fields=[f[0] for f in fs])
        e = b("struct", fields=[f[1] for f in fs])
    else:
        raise AssertionError(kind)
    e["alias"] = alias
    e["doc"] = doc
    e["extra"] = dict(e["extra"], name=name)
    this[3] = e
    if not names.recursive:
        names.defs.append(this)
    return s, e


def gen_field(cx, shape, ns, names):
    if shape in ("ref", "ref?"):
        return gen_ref(cx, ns, names, shape)
    s, e = gen_avro(cx, shape, ns, names)
    fname = names.name("field")
    f = {"name": fname}
    e = dict(e)
    e["extra"] = dict(e["extra"], name=fname)
    if isinstance(s, dict) and len(s) == 1:
        s = s["type"]
    f["type"] = s
    if names.fieldattrs > 0 and cx.bool("fielddoc"):
        names.fieldattrs -= 1
        f["doc"] = e["doc"] = cx.str("fielddoc.s", 1, 1, TEXT)
    if names.fieldattrs > 0 and cx.bool("fielddefault"):
        names.fieldattrs -= 1
        f["default"] = gen_default(cx)
        e["extra"]["default"] = f["default"]
    return f, e


def gen_ref(cx, ns, names, shape):
    """a field that refers to a named type of this document"""
    alias, dns, name, _ = names.defs[cx.choose("target", range(len(names.defs)))] if len(names.defs) > 1 else names.defs[0]
    full = dns is not None and cx.bool("fullname")
    if not full:
        # a simple name refers to the enclosing namespace
        if dns is None:
            cx.assume(ns is None)
        else:
            if ns is None:
                cx.skip()
            cx.assume(ns == dns)
    fname = names.name("field")
    t = alias if full else name
    f = {"name": fname, "type": t if shape == "ref" else ["null", t]}
    if shape == "ref":
        e = b("proxy", alias=alias, extra={"name": fname})
    else:
        e = b(
            "union",
            types=[norm(T.NullType()), b("proxy", alias=alias)],
            extra={"name": fname},
        )
    return f, e


def drop_variable(n):
    """fixed types: whether the Recap type is variable is left open"""
    if isinstance(n, dict):
        out = {k: drop_variable(v) for k, v in n.items()}
        if out.get("kind") == "bytes":
            out["variable"] = None
        return out
    if isinstance(n, list):
        return [drop_variable(x) for x in n]
    return n


def walk(t):
    yield t
    for k in ("values", "keys"):
        v = getattr(t, k, None)
        if isinstance(v, T.RecapType):
            yield from walk(v)
    for k in ("fields", "types"):
        for v in getattr(t, k, None) or []:
            yield from walk(v)


def read(cx, shape, fieldattrs=1, outer=False, recursive=False, typedocs=True):
    names = Names(cx)
    names.fieldattrs = fieldattrs
    names.recursive, names.typedocs = recursive, typedocs
    ns = None
    arg = None
    if outer:
        arg = "o." + cx.str("outer", 1, 1, ((97, 122), (65, 90)))
        ns = arg
    s, e = gen_avro(cx, shape, ns, names)
    text = json.dumps(s)
    conv = AvroConverter()
    got = attempt(conv.to_recap, text, arg) if outer else attempt(conv.to_recap, text)
    cx.check(got[0] == "ok", "a valid Avro record schema was rejected")
    t = got[1]
    cx.observe("recap", norm(t, False))
    cx.check(deep_eq(drop_variable(norm(t, False)), drop_variable(e)), "an Avro schema is read as the wrong type")
    # every reference resolves to the definition
    for x in walk(t):
        for alias, _, _, d in names.defs:
            if isinstance(x, T.ProxyType) and x.alias == alias:
                r = attempt(x.resolve)
                cx.check(r[0] == "ok", "a reference to a defined Avro type does not resolve")
                want = dict(d, alias=None, doc=None)
                want["extra"] = dict(d["extra"])
                for k, v in x.extra_attrs.items():
                    want["extra"][k] = v
                cx.check(
                    deep_eq(drop_variable(norm(r[1], False)), drop_variable(want)),
                    "a reference resolves to something else than its definition",
                )
                cx.cover("ref")
    # what the converter reads later does not depend on what it has read
    first = freeze(t)
    again = attempt(conv.to_recap, json.dumps(LATER))
    cx.check(deep_eq(freeze(t), first), "reading an Avro schema changes the result of an earlier one")
    fresh = attempt(AvroConverter().to_recap, json.dumps(LATER))
    cx.check(fresh[0] == "ok", "a valid Avro record schema was rejected")
    cx.check(again[0] == "ok", "a valid Avro schema is rejected by a converter that has read another")
    cx.check(deep_eq(norm(again[1], False), norm(fresh[1], False)), "an Avro schema is read differently by a converter that has read another")
    cx.cover("end")


read_words = words(read, str.isidentifier)


def read_scopes(cx):
    """types of the same name in different namespaces are different types"""
    outer = cx.choose("outer", (None, "o", "o.n"))
    inner = cx.choose("inner", ("n", "o.n.n", "o", "p"))
    cx.assume(outer != inner)
    kind = cx.choose("kind", ("enum", "fixed", "record"))

    def define(mark, **kw):
        if kind == "enum":
            return dict({"type": "enum", "name": "E", "symbols": [mark]}, **kw)
        if kind == "fixed":
            return dict({"type": "fixed", "name": "E", "size": len(mark)}, **kw)
        return dict({"type": "record", "name": "E", "fields": [{"name": mark, "type": "int"}]}, **kw)

    def is_it(t, mark):
        if kind == "enum":
            return isinstance(t, T.EnumType) and t.symbols == [mark]
        if kind == "fixed":
            return isinstance(t, T.BytesType) and t.bytes_ == len(mark)
        return isinstance(t, T.StructType) and [f.extra_attrs["name"] for f in t.fields] == [mark]

    one, two = cx.str("mark", 1, 1, ((97, 122),)), cx.str("mark", 2, 2, ((97, 122),))
    # the inner type is defined inside a record of that namespace, or on its own
    how = cx.choose("how", ("inherited", "namespace", "full"))
    n_outer, n_inner = (outer or "_root") + ".E", inner + ".E"
    second = {
        "inherited": {"type": "record", "name": "N", "namespace": inner, "fields": [{"name": "d", "type": define(two)}, {"name": "r", "type": "E"}, {"name": "l", "type": {"type": "array", "items": inner + ".E"}}]},
        "namespace": define(two, namespace=inner),
        "full": dict(define(two), name=inner + ".E"),
    }[how]
    fields = [{"name": "a", "type": define(one)}, {"name": "b", "type": second}]
    if cx.bool("inner first"):
        fields.reverse()
    fields += [{"name": "c", "type": "E"}, {"name": "d", "type": ["null", inner + ".E"]}]
    if outer:
        fields.append({"name": "e", "type": outer + ".E"})
    s = {"type": "record", "name": "R", "fields": fields}
    if outer:
        s["namespace"] = outer
    got = attempt(AvroConverter().to_recap, json.dumps(s))
    cx.check(got[0] == "ok", "a valid Avro record schema was rejected")
    f = {x.extra_attrs["name"]: x for x in got[1].fields}
    cx.check(f["a"].alias == n_outer and is_it(f["a"], one), "an Avro schema is read as the wrong type")
    refs = [(f["c"], n_outer, one), (f["d"].types[1], n_inner, two)]
    if outer:
        refs.append((f["e"], n_outer, one))
    if how == "inherited":
        cx.check(f["b"].alias == inner + ".N", "an Avro schema is read as the wrong type")
        g = f["b"].fields
        cx.check(g[0].alias == n_inner and is_it(g[0], two), "an Avro schema is read as the wrong type")
        refs += [(g[1], n_inner, two), (g[2].values, n_inner, two)]
    else:
        cx.check(f["b"].alias == n_inner and is_it(f["b"], two), "an Avro schema is read as the wrong type")
    for r, alias, mark in refs:
        cx.check(isinstance(r, T.ProxyType) and r.alias == alias, "a reference names another type")
        t = attempt(r.resolve)
        cx.check(t[0] == "ok" and is_it(t[1], mark), "a reference resolves to something else than its definition")
    cx.cover("end")


LATER = {
    "type": "record",
    "name": "Later",
    "fields": [
        {"name": "x", "type": {"type": "enum", "name": "LaterE", "symbols": ["A"]}},
        {"name": "y", "type": ["null", "LaterE"]},
    ],
}


def read_invalid(cx):
    s = cx.choose(
        "schema",
        (
            '"int"',
            '{"type": "array", "items": "int"}',
            '{"type": "enum", "name": "E", "symbols": ["A"]}',
            '["null", "int"]',
            '{"type": "record", "name": "R", "fields": [{"name": "f", "type": {"type": "int", "logicalType": "nope"}}]}',
        ),
    )
    got = attempt(AvroConverter().to_recap, s)
    cx.check(got == ("err", "ValueError"), "an unsupported Avro schema is not a ValueError")
    cx.cover("end")


def roundtrip(cx, shape):
    """Avro -> Recap -> Avro keeps the schema (up to layout)"""
    names = Names(cx)
    names.fieldattrs = 1
    s, e = gen_avro(cx, shape, None, names)
    t = AvroConverter().to_recap(json.dumps(s))
    out = AvroConverter().from_recap(t)
    cx.observe("out", out)
    cx.check(deep_eq(canon(out), expect(e)), "Avro -> Recap -> Avro changes the schema")
    cx.cover("end")
