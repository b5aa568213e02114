"""C01 dictionary form round trip; C02 operations never modify what they get"""

import recap.types as T
from props.lib import TEXT, Deco, deep_eq, freeze, gen_type, norm

FLAGS = ((True, True), (True, False), (False, True), (False, False))


def roundtrip(cx, shape, budget, rich=False):
    t = gen_type(cx, shape, Deco(cx, budget, rich=rich))
    before = norm(t)
    for clean, alias in FLAGS:
        d = T.to_dict(t, clean=clean, alias=alias)
        cx.observe("dict", d)
        after = norm(T.from_dict(d))
        cx.check(
            deep_eq(before, after),
            f"type -> dict(clean={clean}, alias={alias}) -> type is not the identity",
        )
    cx.cover("end")


def text_roundtrip(cx, shape, budget):
    """through the JSON text of the dictionary form, as the registry stores it"""
    import json

    t = gen_type(cx, shape, Deco(cx, budget))
    before = norm(t)
    text = json.dumps(T.to_dict(t))
    after = norm(T.from_dict(json.loads(text)))
    cx.check(deep_eq(before, after), "type -> JSON text -> type is not the identity")
    cx.cover("end")


OWN = {
    "null": (),
    "bool": (),
    "int": ("bits", "signed"),
    "float": ("bits",),
    "string": ("bytes", "variable"),
    "bytes": ("bytes", "variable"),
    "enum": ("symbols",),
    "list": ("values", "length", "variable"),
    "map": ("keys", "values"),
    "struct": ("fields",),
    "union": ("types",),
    "wide": ("bits", "signed"),
    "text": ("bytes", "variable"),
}
NAMES = ("unit", "values", "keys", "fields", "types", "symbols", "length", "bits", "signed", "variable", "bytes", "namespace")


def gen_extra(cx):
    """the value of an attribute Recap knows nothing about"""
    k = cx.choose("value", ("null", "bool", "int", "text", "ints", "dict", "type", "types", "nested"))
    return {
        "null": lambda: None,
        "bool": lambda: cx.bool("flag"),
        "int": lambda: cx.int("number"),
        "text": lambda: cx.str("text", 0, 2, TEXT),
        "ints": lambda: [cx.int("number"), 0],
        "dict": lambda: {"A": cx.int("number"), "doc": None},
        "type": lambda: {"type": "int", "bits": 8, "signed": True},
        "types": lambda: [{"type": "int", "bits": 8, "signed": True}, "null", {"type": "bool", "doc": None}],
        "nested": lambda: {"type": "union", "types": ["null", {"type": "int", "bits": cx.int("number")}], "default": None},
    }[k]()


def extras(cx, shape, inner=None):
    """any attribute a type does not have itself is an extra attribute: it is
    kept as it is, whatever its name and value"""
    kind = shape if isinstance(shape, str) else shape[0]
    t = gen_type(cx, shape, Deco(cx, 0))
    name = cx.choose("name", [n for n in NAMES if n not in OWN[kind]])
    t.extra_attrs[name] = gen_extra(cx)
    if inner == "field":
        t = T.StructType([T.BoolType(), t])
    elif inner == "optional":
        t = T.UnionType([T.NullType(), t], default=None)
    before = norm(t)
    t0 = freeze(t)
    for clean, alias in FLAGS:
        d = T.to_dict(t, clean=clean, alias=alias)
        after = norm(T.from_dict(d))
        cx.check(deep_eq(before, after), f"dict(clean={clean}, alias={alias}) changes an extra attribute")
        cx.check(deep_eq(before, norm(T.from_dict(T.clean_dict(d)))), "clean_dict changes an extra attribute")
        cx.check(deep_eq(freeze(t), t0), "to_dict modified the type")
    cx.cover("end")


def clean_idempotent(cx, shape, budget):
    """clean_dict of any dictionary form means the same type, and cleaning twice
    changes nothing more"""
    t = gen_type(cx, shape, Deco(cx, budget))
    before = norm(t)
    raw = T.to_dict(t, clean=False, alias=False)
    once = T.clean_dict(raw)
    twice = T.clean_dict(once)
    cx.observe("once", once)
    cx.check(deep_eq(before, norm(T.from_dict(once))), "clean_dict changed the type")
    cx.check(deep_eq(before, norm(T.from_dict(twice))), "cleaning twice changed the type")
    cx.cover("end")


def pure_alias(cx, shape):
    """alias_dict on dictionaries with nested types that match built-in aliases"""
    t = gen_type(cx, shape, Deco(cx, 0))
    d = T.to_dict(t, clean=False, alias=False)
    d0 = freeze(d)
    one = T.alias_dict(d)
    a1 = freeze(one)
    cx.check(deep_eq(freeze(d), d0), "alias_dict modified the dictionary")
    cx.check(deep_eq(freeze(T.alias_dict(d)), a1), "alias_dict is not repeatable")
    T.clean_dict(one)
    cx.check(deep_eq(freeze(one), a1), "clean_dict modified the dictionary")
    cx.check(deep_eq(freeze(T.clean_dict(d)), freeze(T.clean_dict(d))), "clean_dict is not repeatable")
    cx.check(deep_eq(freeze(d), d0), "clean_dict modified the dictionary")
    cx.cover("end")


def pure(cx, shape, budget, flags=FLAGS):
    t = gen_type(cx, shape, Deco(cx, budget))
    t0 = freeze(t)
    for clean, alias in flags:
        d = T.to_dict(t, clean=clean, alias=alias)
        d0 = freeze(d)
        cx.check(deep_eq(freeze(t), t0), "to_dict modified the type")
        one = T.from_dict(d)
        cx.check(deep_eq(freeze(d), d0), "from_dict modified the dictionary")
        n1 = freeze(one)
        two = T.from_dict(d)
        cx.check(deep_eq(freeze(two), n1), "from_dict is not repeatable")
        cx.check(deep_eq(freeze(one), n1), "from_dict modified an earlier result")
        c1 = freeze(T.clean_dict(d))
        cx.check(deep_eq(freeze(d), d0), "clean_dict modified the dictionary")
        cx.check(deep_eq(freeze(T.clean_dict(d)), c1), "clean_dict is not repeatable")
        if isinstance(d, dict):
            a1 = freeze(T.alias_dict(d))
            cx.check(deep_eq(freeze(d), d0), "alias_dict modified the dictionary")
            cx.check(deep_eq(freeze(T.alias_dict(d)), a1), "alias_dict is not repeatable")
        cx.check(deep_eq(freeze(T.to_dict(t, clean=clean, alias=alias)), d0), "to_dict is not repeatable")
    m1 = t.make_nullable()
    f1 = freeze(m1)
    cx.check(deep_eq(freeze(t), t0), "make_nullable modified the type")
    m2 = m1.make_nullable()
    cx.check(deep_eq(freeze(m1), f1), "make_nullable modified the type")
    cx.check(deep_eq(freeze(t), t0), "make_nullable modified an earlier type")
    cx.check(deep_eq(freeze(t.make_nullable()), f1), "make_nullable is not repeatable")
    cx.observe("nullable", freeze(m2))
    cx.cover("end")
