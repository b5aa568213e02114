"""C03 size limits; C04 equality; C05 aliases; C06 nullability; C07 shorthands"""

import recap.types as T
from props.lib import (
    BUILTIN,
    I31,
    I63,
    IDENT,
    IDENT1,
    TEXT,
    Deco,
    all_of,
    any_of,
    attempt,
    deep_eq,
    freeze,
    gen_default,
    gen_type,
    neg,
    norm,
)

# --------------------------------------------------------------------------
# C03


def _size(cx, label):
    """a size attribute with any integer value, around and far beyond the limits"""
    return cx.int(label, -(1 << 80), 1 << 80)


def gen_sized(cx, shape):
    """(dictionary form, built type, formula: every size is legal)"""
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else [gen_sized(cx, s) for s in shape[1:]]
    dicts = [s[0] for s in sub]
    types = [s[1] for s in sub]
    oks = [s[2] for s in sub]
    if kind in ("null", "bool"):
        return {"type": kind}, (T.NullType if kind == "null" else T.BoolType)(), True
    if kind == "int":
        b = _size(cx, "bits")
        return (
            {"type": "int", "bits": b, "signed": True},
            T.IntType(b),
            all_of(b >= 1, b <= I31),
        )
    if kind == "float":
        b = _size(cx, "bits")
        return {"type": "float", "bits": b}, T.FloatType(b), all_of(b >= 1, b <= I31)
    if kind in ("string", "bytes"):
        cls = T.StringType if kind == "string" else T.BytesType
        how = cx.choose("size.form", ("var", "var+len", "fixed+len", "fixed"))
        d = {"type": kind, "variable": how.startswith("var")}
        if how in ("var", "fixed"):
            return d, cls(variable=d["variable"]), how == "var"
        n = _size(cx, "bytes")
        d["bytes"] = n
        return d, cls(bytes_=n, variable=d["variable"]), all_of(n >= 1, n <= I63)
    if kind == "list":
        how = cx.choose("size.form", ("var", "var+len", "fixed+len", "fixed"))
        d = {"type": "list", "values": dicts[0], "variable": how.startswith("var")}
        if how in ("var", "fixed"):
            return (
                d,
                T.ListType(types[0], variable=d["variable"]),
                all_of(how == "var", *oks),
            )
        n = _size(cx, "length")
        d["length"] = n
        return (
            d,
            T.ListType(types[0], length=n, variable=d["variable"]),
            all_of(n >= 1, n <= I63, *oks),
        )
    if kind == "map":
        return (
            {"type": "map", "keys": dicts[0], "values": dicts[1]},
            T.MapType(types[0], types[1]),
            all_of(*oks),
        )
    if kind == "struct":
        return {"type": "struct", "fields": dicts}, T.StructType(types), all_of(*oks)
    if kind == "union":
        return {"type": "union", "types": dicts}, T.UnionType(types), all_of(*oks)
    if kind == "listunion":
        return list(dicts), T.UnionType(types), all_of(*oks)
    if kind == "typelist":
        return {"type": list(dicts)}, T.UnionType(types), all_of(*oks)
    if kind == "optional":
        d = dict(dicts[0])
        d["optional"] = True
        return d, T.UnionType([T.NullType(), types[0]], default=None), all_of(*oks)
    raise AssertionError(kind)


def limits(cx, shape):
    d, t, ok = gen_sized(cx, shape)
    got = attempt(T.from_dict, d)
    if got[0] == "ok":
        cx.check(ok, "a size outside its limits was accepted")
    else:
        cx.check(got[1] == "ValueError", "an illegal size is not reported as ValueError")
        cx.check(neg(ok), "a legal size was rejected")
    v = attempt(t.validate)
    if v[0] == "ok":
        cx.check(ok, "validate() accepted a size outside its limits")
    else:
        cx.check(v[1] == "ValueError", "validate() raises something else than ValueError")
        cx.check(neg(ok), "validate() rejected a legal size")
    cx.cover(got[0])


# --------------------------------------------------------------------------
# C04


def equality(cx, shape_a, shape_b, budget):
    a = gen_type(cx, shape_a, Deco(cx, budget, defaults=("none", "int")))
    b = gen_type(cx, shape_b, Deco(cx, budget, defaults=("none", "int")))
    same = deep_eq(norm(a, False), norm(b, False))
    eq = a == b
    if eq:
        cx.check(same, "two different types compare equal")
        cx.cover("equal")
    else:
        cx.check(neg(same), "two identical types compare unequal")
        cx.cover("different")
    if eq:
        cx.check(b == a, "equality is not symmetric")
    else:
        cx.check(neg(b == a), "equality is not symmetric")
    cx.check(neg(a != b) if eq else a != b, "!= is not the negation of ==")
    cx.check(a == a, "a type differs from itself")
    cx.check(neg(a == norm(a)), "a type equals something that is not a type")


# --------------------------------------------------------------------------
# C05

ALIASCH = ((97, 98), (48, 48), (95, 95), (46, 46), (65, 65), (45, 45), (10, 10), (32, 32), (233, 233))


def _ident_start(c):
    return any_of(
        all_of(c >= "a", c <= "z"), all_of(c >= "A", c <= "Z"), c == "_"
    )


def _ident_part(c):
    return any_of(_ident_start(c), all_of(c >= "0", c <= "9"))


def is_fqn(s):
    """formula: dot separated identifiers, at least two"""
    ok = []
    dots = []
    for i in range(len(s)):
        c = s[i]
        if i == 0:
            ok.append(_ident_start(c))
        else:
            prev_dot = s[i - 1] == "."
            ok.append(
                any_of(
                    all_of(c == ".", neg(prev_dot)),
                    all_of(prev_dot, _ident_start(c)),
                    all_of(neg(prev_dot), _ident_part(c)),
                )
            )
        dots.append(c == ".")
    if not ok:
        return False
    return all_of(*ok, any_of(*dots), neg(s[len(s) - 1] == "."))


def alias_syntax(cx, kind, length):
    name = cx.str("alias", length, length, ALIASCH)
    d = {
        "int": {"type": "int", "bits": 7, "alias": name},
        "struct": {"type": "struct", "fields": [], "alias": name},
        "union": {"type": "union", "types": ["null"], "alias": name},
        "enum": {"type": "enum", "symbols": ["A"], "alias": name},
        "nested": {"type": "list", "values": {"type": "bool", "alias": name}},
    }[kind]
    got = attempt(T.from_dict, d)
    ok = is_fqn(name)
    if got[0] == "ok":
        cx.check(ok, "an alias that is not a fully qualified name was accepted")
        cx.cover("accepted")
    else:
        cx.check(got[1] == "ValueError", "an invalid alias is not reported as ValueError")
        cx.check(neg(ok), "a fully qualified alias was rejected")
        cx.cover("rejected")


FOREIGN = "\u00e9\u00df\u00aa\u00b5\u00b2\u0660\u0391\u4e00\u0301\u2160\uff21\uff10\U0001d400\u212a\u00a0\u2028\n"


def alias_foreign(cx, kind):
    """letters and digits that are not ASCII are not part of names"""
    c = cx.choose("char", FOREIGN)
    name = cx.choose("where", ("{}.a", "{}a.b", "a{}.b", "a.{}", "a.{}b", "a.b{}", "a.b.c{}", "a1{}2.b")).format(c)
    d = {"bool": {"type": "bool", "alias": name}, "struct": {"type": "struct", "fields": [{"type": "int", "bits": 7, "alias": name}]}}[kind]
    got = attempt(T.from_dict, d)
    cx.check(got == ("err", "ValueError"), "an alias that is not a fully qualified name was accepted")
    reg = T.RecapTypeRegistry()
    got = attempt(reg.register_alias, T.BoolType(alias=name))
    cx.check(got == ("err", "ValueError"), "an alias that is not a fully qualified name was accepted")
    cx.check(attempt(reg.from_alias, name) == ("err", "TypeError"), "a rejected alias resolves")
    cx.cover("end")


def gen_alias(cx, label):
    first = ((65, 90), (95, 95), (97, 122))
    return cx.str(label, 1, 1, first) + "." + cx.str(label + ".2", 1, 1, first) + cx.str(label + ".3", 0, 1, first + ((48, 57),))


def alias_unique(cx, where):
    """two definitions in one document: an error exactly when the names are equal"""
    a, b = gen_alias(cx, "a"), gen_alias(cx, "b")
    x = {"type": "int", "bits": 5, "alias": a}
    y = {"type": "string", "alias": b}
    reg = None
    if where == "fields":
        docs = [{"type": "struct", "fields": [x, y]}]
    elif where == "nested":
        docs = [{"type": "list", "values": y, "alias": a}]
    elif where == "map":
        docs = [{"type": "map", "keys": y, "values": x}]
    elif where == "union":
        docs = [[x, y]]
    elif where == "typelist":
        docs = [{"type": [x, y]}]
    else:  # two documents sharing a registry
        docs = [x, y]
        reg = T.RecapTypeRegistry()
    got = ("ok", None)
    for d in docs:
        got = attempt(T.from_dict, d, reg)
        if got[0] != "ok":
            break
    if got[0] == "ok":
        cx.check(neg(a == b), "an alias was defined twice without an error")
        cx.cover("distinct")
    else:
        cx.check(got[1] == "ValueError", "a duplicate alias is not reported as ValueError")
        cx.check(a == b, "distinct aliases were rejected")
        cx.cover("duplicate")


SIMPLE = ("null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union")


def alias_builtin(cx):
    """the published table, and no redefinition of it"""
    reg = T.RecapTypeRegistry()
    for name, want in BUILTIN.items():
        t = T.from_dict(name)
        cx.check(isinstance(t, T.ProxyType), f"{name} is not an alias reference")
        r = t.resolve()
        cx.check(deep_eq(norm(r), want), f"built-in alias {name} means something else")
        got = attempt(
            reg.register_alias, T.IntType(cx.int("bits", 1, I31), alias=name)
        )
        cx.check(got == ("err", "ValueError"), f"built-in alias {name} was redefined")
        for other in (name.upper(), name.title(), name + "0", name[:-1], "a." + name, name + ".a", name + " "):
            if other in BUILTIN or other in SIMPLE:
                continue
            u = T.from_dict({"type": other})
            cx.check(attempt(u.resolve) == ("err", "TypeError"), f"the undefined alias {other} resolves")
    for name in ("null", "bool"):
        cx.check(T.from_dict(name).type_ == name, f"{name} is not a simple type")
    got = attempt(reg.register_alias, T.IntType(8))
    cx.check(got == ("err", "ValueError"), "a type without an alias was registered")
    cx.cover("end")


def alias_unknown(cx):
    """a reference resolves exactly when its name is defined"""
    a, b = gen_alias(cx, "def"), gen_alias(cx, "ref")
    form = cx.choose("form", ("same", "longer", "shorter"))
    if form == "longer":  # one may end with the other
        b = cx.str("ref.0", 1, 1, ((97, 98),)) + "." + b
    elif form == "shorter":
        b = b[2:]
    before = cx.bool("reference first")
    x = {"type": "int", "bits": cx.int("bits", 1, I31), "alias": a}
    y = {"type": b, "name": "ref"}
    t = T.from_dict({"type": "struct", "fields": [y, x] if before else [x, y]})
    p = t.fields[0] if before else t.fields[1]
    got = attempt(p.resolve)
    if got[0] == "ok":
        cx.check(a == b, "an undefined alias resolved")
        cx.check(
            deep_eq(norm(got[1]), norm(T.IntType(x["bits"], name="ref"))),
            "an alias resolves to something else than its definition",
        )
        cx.cover("resolved")
    else:
        cx.check(got[1] == "TypeError", "an undefined alias is not reported as TypeError")
        cx.check(neg(a == b), "a defined alias does not resolve")
        cx.cover("unknown")


OVERRIDES = ("doc", "logical", "name", "default", "unit", "signed", "bits", "bytes", "length")


def follow(t):
    """the reference inside a field, list, map or nullable union"""
    if isinstance(t, T.ProxyType):
        return t
    if isinstance(t, T.UnionType):
        return follow([x for x in t.types if not isinstance(x, T.NullType)][0])
    return follow(t.values)


def alias_later(cx, where):
    """references inside an aliased type resolve at every depth, also to the type
    itself and to aliases that are defined further on"""
    bits = cx.int("bits", 1, I31)
    name = cx.choose("names", ("a.N a.M", "a.b.N a.b.M", "z.N a.M")).split(" ")
    target = {"self": name[0], "later": name[1]}[cx.choose("target", ("self", "later"))]
    ref = {
        "field": {"type": target, "name": "next"},
        "optional": {"type": target, "optional": True},
        "list": {"type": "list", "values": target},
        "map": {"type": "map", "keys": "string", "values": target},
        "union": ["null", {"type": target}],
    }[where]
    d = {
        "type": "struct",
        "fields": [
            {"type": "struct", "alias": name[0], "fields": [ref, {"type": "int", "bits": bits}]},
            {"type": "struct", "alias": name[1], "fields": [name[0], {"type": "float", "bits": bits}]},
            {"type": name[0]},
        ],
    }
    t = T.from_dict(d)
    cur, at = t.fields[2], name[0]
    for _ in range(4):
        got = cur.resolve()
        cx.check(isinstance(got, T.StructType) and len(got.fields) == 2, "a nested reference resolves to the wrong type")
        kind = "int" if at == name[0] else "float"
        cx.check(got.fields[1].type_ == kind and got.fields[1].bits == bits, "a nested reference resolves to the wrong type")
        cur = follow(got.fields[0])
        at = target if at == name[0] else name[0]
        cx.check(cur.alias == at, "a nested reference changed its name")
    cx.cover("end")


def alias_resolve(cx, shape, budget):
    """definition + overrides at the reference; the registry is not affected"""
    reg = T.RecapTypeRegistry()
    d = Deco(cx, budget, only=("doc", "logical", "default", "extra"))
    t = gen_type(cx, shape, d)
    t.alias = "a.b"
    want = norm(t, False)
    want["alias"] = None
    want["doc"] = None
    want["extra"] = {k: v for k, v in want["extra"].items() if k != "default"}
    t0 = freeze(t)
    reg.register_alias(t)
    cx.check(deep_eq(freeze(t), t0), "registering an alias modified the type")
    over = {}
    which = cx.choose("override", ("none",) + OVERRIDES)
    if which in ("doc", "logical", "name", "unit"):
        over[which] = cx.str("ov." + which, 1, 1, TEXT)
    elif which == "default":
        over["default"] = gen_default(cx)
    elif which == "signed":
        over["signed"] = cx.bool("ov.signed")
    elif which in ("bits", "bytes", "length"):
        over[which] = cx.int("ov." + which, 1, 1000)
    # overrides that the definition has no such attribute for stay extra attributes
    p = T.from_dict(dict(over, type="a.b"), reg)
    for k, v in over.items():
        key = "bytes_" if k == "bytes" else k
        if key in want and key != "extra":
            want[key] = v
        else:
            want["extra"] = dict(want["extra"])
            want["extra"][k] = v
    r = p.resolve()
    cx.observe("resolved", norm(r, False))
    cx.check(deep_eq(norm(r, False), want), "alias + overrides resolve to the wrong type")
    # isolation: neither the original nor a resolved copy reaches the registry
    t.extra_attrs["zz"] = 1
    t.doc = "changed"
    r.extra_attrs["yy"] = 2
    r.logical = "changed"
    if hasattr(r, "bits"):
        r.bits = 1
    if hasattr(r, "symbols"):
        r.symbols.append("extra")
    if hasattr(r, "fields"):
        r.fields.append(T.NullType())
    if hasattr(r, "types"):
        r.types.append(T.NullType())
    if isinstance(getattr(r, "values", None), T.RecapType):
        r.values.doc = "changed"
    for k in ("unit", "logical"):
        if k in over:
            pass
    q = T.from_dict({"type": "a.b"}, reg).resolve()
    base = dict(t0)
    base["alias"] = None
    base["doc"] = None
    base["extra"] = {k: v for k, v in base["extra"].items() if k != "default"}
    cx.check(deep_eq(freeze(q), base), "a registered alias was changed from outside")
    cx.cover("end")


# --------------------------------------------------------------------------
# C06


def nullable(cx, shape, budget):
    t = gen_type(cx, shape, Deco(cx, budget))
    n = norm(t, False)
    kinds = [x.type_ for x in t.types] if isinstance(t, T.UnionType) else []
    was = t.type_ == "null" or (t.type_ == "union" and "null" in kinds)
    cx.check(t.is_nullable() == was, "is_nullable() is wrong")
    u = t.make_nullable()
    got = norm(u, False)
    cx.observe("made", got)
    cx.check(isinstance(u, T.UnionType), "make_nullable() is not a union")
    cx.check(u.is_nullable(), "make_nullable() is not nullable")
    inner = dict(n)
    moved = {"default": n["extra"].get("default")}
    if "name" in n["extra"]:
        moved["name"] = n["extra"]["name"]
    rest = {k: v for k, v in n["extra"].items() if k not in ("default", "name")}
    null = norm(T.NullType())
    if t.type_ == "union":
        want = dict(n)
        want["extra"] = dict(rest, **moved)
        if not was:
            want["types"] = [null] + n["types"]
    else:
        inner["doc"] = None
        inner["extra"] = rest
        want = {
            "kind": "union",
            "logical": None,
            "alias": None,
            "doc": n["doc"],
            "extra": moved,
            "types": [inner] if was else [null, inner],
        }
    cx.check(deep_eq(got, want), "make_nullable() lost or changed an attribute")
    again = norm(u.make_nullable(), False)
    cx.check(deep_eq(again, got), "making a nullable type nullable changed it")
    cx.cover("end")


def optional_flag(cx, kinds, budget):
    """is_optional: plain null + exactly one other type + a default"""
    types = []
    for k in kinds:
        types.append(
            T.NullType() if k == "null" else gen_type(cx, k, Deco(cx, budget))
        )
    attrs = Deco(cx, 2).attrs(("doc", "default", "extra"))
    u = T.UnionType(types, **attrs)
    n_other = len([k for k in kinds if k != "null"])
    want = "null" in kinds and n_other == 1 and "default" in attrs
    cx.check(u.is_optional == want, "is_optional is wrong")
    cx.check(u.is_nullable() == ("null" in kinds), "is_nullable() is wrong")
    cx.cover("optional" if want else "not")


# --------------------------------------------------------------------------
# C07


def gen_member(cx, label):
    """one member of a shorthand: (short form, expected normal form)"""
    k = cx.choose(label, ("null", "bool", "string", "bytes", "int32", "x.y", "int", "list", "dict", "nested"))
    if k in ("null", "bool"):
        return k, norm(T.NullType() if k == "null" else T.BoolType())
    if k == "string":
        return k, norm(T.StringType())
    if k == "bytes":
        return k, norm(T.BytesType())
    if k in ("int32", "x.y"):
        return k, norm(T.ProxyType(k, None))
    if k == "int":
        b, s = cx.int(label + ".bits", 1, I31), cx.bool(label + ".signed")
        return {"type": "int", "bits": b, "signed": s}, norm(T.IntType(b, signed=s))
    if k == "list":
        b = cx.int(label + ".bits", 1, I31)
        return (
            {"type": "list", "values": {"type": "float", "bits": b}},
            norm(T.ListType(T.FloatType(b))),
        )
    if k == "dict":
        doc = cx.str(label + ".doc", 1, 1, TEXT)
        return {"type": "string", "doc": doc}, norm(T.StringType(doc=doc))
    b = cx.int(label + ".bits", 1, I31)
    return ["null", {"type": "float", "bits": b}], norm(
        T.UnionType([T.NullType(), T.FloatType(b)])
    )


def shorthand(cx, form, n):
    ms = [gen_member(cx, f"m{i}") for i in range(n)]
    shorts, wants = [m[0] for m in ms], [m[1] for m in ms]
    union = dict(norm(T.UnionType([])), types=wants)
    attrs = {}
    if form not in ("list", "single", "values", "field"):
        attrs = Deco(cx, 2, rich=True).attrs(("doc", "name", "default", "logical"))
        union["doc"] = attrs.get("doc")
        union["logical"] = attrs.get("logical")
        union["extra"] = {k: attrs[k] for k in ("name", "default") if k in attrs}
    if form == "single":
        d, want = shorts[0], wants[0]
    elif form == "list":
        d, want = shorts, union
    elif form == "typelist":
        d, want = dict(attrs, type=shorts), union
    elif form == "union":
        d, want = dict(attrs, type="union", types=shorts), union
    elif form == "values":
        d = {"type": "list", "values": shorts[0]}
        want = dict(norm(T.ListType(T.NullType())), values=wants[0])
    elif form == "field":
        d = {"type": "struct", "fields": shorts}
        want = dict(norm(T.StructType([])), fields=wants)
    else:
        raise AssertionError(form)
    d0 = freeze(d)
    got = norm(T.from_dict(d))
    cx.observe("got", got)
    cx.check(deep_eq(got, want), "a shorthand means something else than its long form")
    cx.check(deep_eq(freeze(d), d0), "from_dict modified the dictionary")
    cx.cover("end")


def optional_sugar(cx, kind, budget):
    """{"optional": true, ...} is the nullable union with the default (None if
    absent), name and doc on the union and the rest on the member"""
    attrs = Deco(cx, budget, rich=True).attrs(("logical", "alias", "doc", "name", "default", "extra"))
    body = {
        "int": {"type": "int", "bits": 9, "signed": False},
        "string": {"type": "string", "bytes": 7},
        "bool": {"type": "bool"},
        "int32": {"type": "int32"},
        "list": {"type": "list", "values": "bool"},
        "map": {"type": "map", "keys": "string", "values": "bool"},
        "enum": {"type": "enum", "symbols": ["A", "B"]},
        "struct": {"type": "struct", "fields": ["bool"]},
    }[kind]
    if kind == "int32":
        attrs.pop("alias", None)
    flag = cx.bool("optional")
    d = dict(body, **attrs)
    d["optional"] = flag
    got = norm(T.from_dict(d))
    inner = {k: v for k, v in attrs.items() if k not in ("doc", "name", "default")}
    if flag:
        want = norm(T.UnionType([T.NullType()]))
        want["types"] = [want["types"][0], norm(T.from_dict(dict(body, **inner)))]
        want["doc"] = attrs.get("doc")
        want["extra"] = {"default": attrs.get("default")}
        if "name" in attrs:
            want["extra"]["name"] = attrs["name"]
    else:
        want = norm(T.from_dict(dict(body, **attrs)))
    cx.observe("got", got)
    cx.check(deep_eq(got, want), "optional means something else than the nullable union")
    cx.cover("optional" if flag else "plain")


def optional_union(cx, n):
    """optional on a union adds null first unless it is already there"""
    members = [cx.choose(f"m{i}", ("null", "bool", "int32", "int", "null dict", "bool dict")) for i in range(n)]
    plain = [m.removesuffix(" dict") for m in members]
    members = [{"type": "int", "bits": cx.int("bits", 1, I31)} if m == "int" else {"type": m[:-5]} if m.endswith(" dict") else m for m in members]
    attrs = Deco(cx, 2, rich=True).attrs(("doc", "name", "default", "alias", "logical", "extra"))
    d = dict(attrs, optional=True)
    if cx.bool("list"):
        d["type"] = list(members)
    else:
        d.update(type="union", types=list(members))
    got = norm(T.from_dict(d))
    want = norm(
        T.from_dict(
            dict(
                attrs,
                type="union",
                types=members if "null" in plain else ["null"] + members,
                default=attrs.get("default"),
            )
        )
    )
    cx.check(deep_eq(got, want), "optional means something else than the nullable union")
    cx.cover("end")


REQUIRED = (
    ("int", {"bits": 8}, "bits"),
    ("float", {"bits": 8}, "bits"),
    ("list", {"values": "bool"}, "values"),
    ("map", {"keys": "bool", "values": "bool"}, "keys"),
    ("map", {"keys": "bool", "values": "bool"}, "values"),
    ("enum", {"symbols": ["A"]}, "symbols"),
    ("union", {"types": ["null"]}, "types"),
    ("bool", {}, "type"),
    ("struct", {"fields": []}, "type"),
    ("int", {"bits": 8}, "type"),
)


def required(cx):
    kind, attrs, missing = cx.choose("case", REQUIRED)
    extra = Deco(cx, 2).attrs(("doc", "name", "default", "logical", "extra", "alias"))
    present = cx.bool("present")
    d = dict(attrs, type=kind, **extra)
    if not present:
        d = {k: v for k, v in d.items() if k != missing}
    where = cx.choose("where", ("top", "field", "value", "key", "item", "member", "bare", "optional"))
    if where == "field":
        d = {"type": "struct", "fields": ["bool", d]}
    elif where == "key":
        d = {"type": "map", "keys": d, "values": "bool"}
    elif where == "item":
        d = {"type": "list", "values": d}
    elif where == "member":
        d = {"type": "union", "types": ["null", d, "bool"]}
    elif where == "bare":
        d = ["null", d]
    elif where == "optional":
        d = {"type": "struct", "fields": [dict(d, optional=True)]}
    elif where == "value":
        d = {"type": "map", "keys": "string", "values": d}
    got = attempt(T.from_dict, d)
    if present:
        cx.check(got[0] == "ok", "a complete dictionary was rejected")
    else:
        cx.check(got[0] == "err" and got[1] in ("ValueError", "AssertionError", "KeyError"), "a missing required attribute is not rejected")
    cx.cover("present" if present else "missing")


def clean_written(cx, form, n, budget):
    """cleaning a dictionary someone wrote, with shorthands, does not change
    what it means"""
    attrs = Deco(cx, budget).attrs(("doc", "name", "default", "logical", "alias"))
    if form in ("list", "typelist", "union"):
        ms = [cx.choose("member", ("null", "bool", "int32", "null dict", "dict", "list", "union", "opt")) for _ in range(n)]
        ms = [
            {
                "null dict": {"type": "null"},
                "dict": {"type": "string", "bytes": 7, "variable": True},
                "list": ["bool", "null"],
                "union": {"type": "union", "types": ["null", "bytes"], "default": None},
                "opt": {"type": "bool", "optional": True},
            }.get(m, m)
            for m in ms
        ]
        if form == "list":
            d = ms
        elif form == "typelist":
            d = dict(attrs, type=ms)
        else:
            d = dict(attrs, type="union", types=ms)
    else:
        d = dict(
            {
                "int": {"type": "int", "bits": 9, "signed": True},
                "bool": {"type": "bool", "doc": None},
                "int32": {"type": "int32"},
                "values": {"type": "list", "values": {"type": ["null", "bool"]}, "variable": True},
                "map": {"type": "map", "keys": {"type": "string"}, "values": ["null", {"type": "bool"}]},
                "struct": {"type": "struct", "fields": [{"type": "bool", "optional": True, "name": "x"}, ["int32"]]},
                "enum": {"type": "enum", "symbols": ["A"]},
            }[form],
            **attrs,
        )
        if form == "int32":
            d.pop("alias", None)
    if isinstance(d, dict):
        flag = cx.choose("optional", ("absent", True, False))
        if flag != "absent":
            d["optional"] = flag
    if cx.bool("field"):
        d = {"type": "struct", "fields": [d]}
    d0 = freeze(d)
    before = norm(T.from_dict(d))
    once = T.clean_dict(d)
    cx.check(deep_eq(freeze(d), d0), "clean_dict modified the dictionary")
    cx.check(deep_eq(norm(T.from_dict(once)), before), "clean_dict changes what a dictionary means")
    cx.check(deep_eq(norm(T.from_dict(T.clean_dict(once))), before), "cleaning twice changed the type")
    cx.cover("end")
