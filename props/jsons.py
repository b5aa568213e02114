"""C10 JSON Schema -> Recap, C11 Recap -> JSON Schema"""

import json

from referencing import Registry, Resource
from referencing.jsonschema import DRAFT202012

import recap.types as T
from props.avro import b, walk
from props.lib import (
    BUILTIN,
    TEXT,
    Deco,
    all_of,
    attempt,
    deep_eq,
    field_name,
    freeze,
    gen_default,
    gen_type,
    neg,
    norm,
    overrides,
    words,
)
from recap.converters.json_schema import JSONSchemaConverter

# --------------------------------------------------------------------------
# C11


class Unmappable(Exception):
    pass


def is_optional(n):
    if n["kind"] != "union":
        return False
    kinds = [x["kind"] for x in n["types"]]
    return (
        "null" in kinds
        and len([k for k in kinds if k != "null"]) == 1
        and "default" in n["extra"]
    )


def expect(n, refs=True):
    """JSON Schema a Recap type must become, on the structural normal form"""
    out = {}
    if "default" in n["extra"]:
        out["default"] = n["extra"]["default"]
    if n["doc"]:
        out["description"] = n["doc"]
    kind = n["kind"]
    if kind == "proxy":
        out["$ref"] = "#/$defs/" + n["alias"]
        return out
    if n["alias"] is not None and refs:
        return {"$ref": "#/$defs/" + n["alias"]}
    if kind == "union":
        if is_optional(n):
            (x,) = [t for t in n["types"] if t["kind"] != "null"]
            out = dict(expect(x), **out)
        else:
            out["oneOf"] = [expect(t) for t in n["types"]]
    elif kind == "struct":
        out["type"] = "object"
        props, req = [], []
        for f in n["fields"]:
            name = f["extra"].get("name")
            if not name:
                raise Unmappable()
            props.append((name, expect(f)))
            if not is_optional(f):
                req.append(name)
        out["properties"] = props
        if req:
            out["required"] = req
    elif kind == "list":
        out["type"] = "array"
        out["items"] = expect(n["values"])
    elif kind == "map":
        out["type"] = "object"
        out["additionalProperties"] = expect(n["values"])
    elif kind == "enum":
        out["type"] = "string"
        out["enum"] = n["symbols"]
    elif kind == "bytes":
        out["type"] = "string"
        out["format"] = "byte"
    else:
        out["type"] = {
            "bool": "boolean",
            "int": "integer",
            "float": "number",
            "string": "string",
            "null": "null",
        }[kind]
    return out


def collect_defs(n, acc):
    if n["kind"] != "proxy" and n["alias"] is not None:
        acc.append((n["alias"], expect(n, False)))
    for k in ("fields", "types"):
        for x in n.get(k, []):
            collect_defs(x, acc)
    if "values" in n:
        collect_defs(n["values"], acc)
    return acc


def listify(s):
    """property and definition tables as ordered lists, for comparison; keyword
    order and the order of definitions do not matter"""
    if isinstance(s, dict):
        out = {}
        for k, v in s.items():
            if k in ("properties",) and isinstance(v, dict):
                out[k] = [(n, listify(x)) for n, x in v.items()]
            elif k == "default":
                out[k] = v
            else:
                out[k] = listify(v)
        return out
    if isinstance(s, list):
        return [listify(x) for x in s]
    return s


def all_refs(s):
    if isinstance(s, dict):
        for k, v in s.items():
            if k == "default":
                continue
            if k == "properties":
                # the keys are names
                for x in v.values():
                    yield from all_refs(x)
            elif k == "$ref":
                yield v
            else:
                yield from all_refs(v)
    elif isinstance(s, list):
        for v in s:
            yield from all_refs(v)


def write_one(cx, t):
    t0 = freeze(t)
    n = norm(t)
    try:
        want = expect(n)
        defs = collect_defs(n, [])
    except Unmappable:
        want = None
    got = attempt(JSONSchemaConverter().from_recap, t)
    cx.check(deep_eq(freeze(t), t0), "from_recap modified the type")
    if want is None:
        cx.check(got == ("err", "ValueError"), "a struct field without a name is not a ValueError")
        cx.cover("unmappable")
        return
    cx.check(got[0] == "ok", "a type JSON Schema can express was rejected")
    s = dict(got[1])
    cx.observe("schema", s)
    gd = s.pop("$defs", {})
    cx.check(deep_eq(listify(s), want), "the JSON schema does not describe the type")
    cx.check(len(gd) == len(defs), "definitions are missing or superfluous")
    for alias, d in defs:
        cx.check(
            alias in gd,
            "an alias has no definition",
        )
        cx.check(deep_eq(listify(gd[alias]), d), "a definition does not describe its alias")
    for r in all_refs(got[1]):
        cx.check(any_key(r, gd), "a $ref does not point to a definition")
    cx.cover("mapped")


def any_key(ref, defs):
    from symx.core import any_of

    return any_of(*[ref == "#/$defs/" + k for k in defs])


def named(cx, t, i=0):
    """give every struct field in the tree a distinct name"""
    for x in walk(t):
        if isinstance(x, T.StructType):
            for k, f in enumerate(x.fields):
                if "name" not in f.extra_attrs:
                    f.extra_attrs["name"] = field_name(cx, "fname", 1, 1, TEXT, str(k))
                else:
                    f.extra_attrs["name"] = f.extra_attrs["name"] + str(k)


def write(cx, shape, budget, naming=True):
    t = gen_type(
        cx, shape, Deco(cx, budget, only=("logical", "alias", "doc", "name", "default"))
    )
    if naming:
        named(cx, t)
    write_one(cx, t)


def write_refs(cx, shape, where):
    """a definition and a reference to it, before or after it, in a field, list,
    map or optional; the reference may override attributes"""
    reg = T.RecapTypeRegistry()
    t = gen_type(cx, shape, Deco(cx, 1, only=("doc", "default")))
    t.alias = "a.B"
    t.extra_attrs["name"] = "def"
    named(cx, t)
    reg.register_alias(t)
    over = Deco(cx, 1).attrs(("doc", "default"))
    p = T.ProxyType("a.B", reg, **over)
    if where == "field":
        p.extra_attrs["name"] = "ref"
    elif where == "list":
        p = T.ListType(p, name="ref")
    elif where == "map":
        p = T.MapType(T.StringType(), p, name="ref")
    elif where == "optional":
        p = T.UnionType([T.NullType(), p], default=None, name="ref")
    elif where == "union":
        p = T.UnionType([T.BoolType(), p], name="ref")
    fs = [p, t] if cx.bool("reference first") else [t, p]
    if "default" not in over:
        write_one(cx, T.StructType(fs))
        cx.cover("ref")
    else:
        # overrides: the definition is repeated inline with the override applied
        got = attempt(JSONSchemaConverter().from_recap, T.StructType(fs))
        cx.check(got[0] == "ok", "a type JSON Schema can express was rejected")
        n = norm(t, False)
        n = dict(n, alias=None, doc=None)
        n["extra"] = {k: v for k, v in n["extra"].items() if k not in ("default", "name")}
        n["extra"]["default"] = over["default"]
        ref = got[1]["properties"]["ref"]
        if where == "list":
            ref = ref["items"]
        elif where == "map":
            ref = ref["additionalProperties"]
        elif where == "union":
            ref = ref["oneOf"][1]
        elif where == "optional":
            n["extra"]["default"] = None
        cx.check(deep_eq(listify(ref), expect(n)), "an overridden alias is written as the wrong type")
        cx.cover("override")


def write_recursive(cx, where):
    """a struct that refers to itself"""
    reg = T.RecapTypeRegistry()
    doc = Deco(cx, 1).attrs(("doc",))
    p = T.ProxyType("a.Node", reg, **doc)
    if where == "field":
        p.extra_attrs["name"] = "next"
    elif where == "list":
        p = T.ListType(p, name="next")
    elif where == "optional":
        p = T.UnionType([T.NullType(), p], default=None, name="next")
    t = T.StructType([T.IntType(cx.int("bits", 1, 64), name="v"), p], alias="a.Node")
    reg.register_alias(t)
    write_one(cx, t)
    cx.cover("end")


def write_builtin(cx, where):
    name = cx.choose("alias", tuple(BUILTIN))
    over = Deco(cx, 2).attrs(("doc", "default", "name"))
    over.update(overrides(cx, name))
    p = T.ProxyType(name, T.RecapTypeRegistry(), **over)
    if where == "field":
        p.extra_attrs["name"] = "f"
        p = T.StructType([p])
    elif where == "list":
        p = T.ListType(p)
    elif where == "optional":
        p = T.StructType([T.UnionType([T.NullType(), p], default=None, name="f")])
    write_one(cx, p)


# --------------------------------------------------------------------------
# C10


def gen_schema(cx, shape, deco):
    """-> (JSON schema, expected normal form)"""
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else shape[1:]
    s, e = {}, None
    if kind == "prim":
        kind = cx.choose("primitive", ("string", "number", "integer", "boolean", "null"))
    if kind == "format":
        kind = cx.choose("format", ("bytes", "date", "date-time", "time"))
        s = {"type": "string", "format": kind}
        if kind == "bytes":
            e = norm(T.BytesType())
        else:
            lg = {"date": "Date", "date-time": "DateTime", "time": "Time"}[kind]
            e = dict(norm(T.StringType()), logical="org.iso.8601." + lg)
    elif kind in ("string", "number", "integer", "boolean", "null"):
        s = {"type": kind}
        e = norm(
            {
                "string": T.StringType,
                "number": lambda: T.FloatType(64),
                "integer": lambda: T.IntType(32, signed=True),
                "boolean": T.BoolType,
                "null": T.NullType,
            }[kind]()
        )
    elif kind == "array":
        i, v = gen_schema(cx, sub[0], deco)
        s = {"type": "array", "items": i}
        e = b("list", values=v, length=None, variable=True)
    elif kind == "multi":
        # "array" and "object" only with the keywords that describe them; the other
        # keywords apply to the types they are meant for
        names = ("null", "string", "integer", "boolean", "number")
        how = sub[1] if len(sub) > 1 else None
        known = {}
        if how == "array":
            i, v = gen_schema(cx, "prim", Deco(cx, 0))
            s["items"], known["array"] = i, b("list", values=v, length=None, variable=True)
        elif how == "object":
            o, known["object"] = gen_schema(cx, ["object", "prim"], Deco(cx, 0))
            s.update(o)
        elif how == "format":
            f, known["string"] = gen_schema(cx, "format", Deco(cx, 0))
            s["format"] = f["format"]
        names += tuple(k for k in known if k not in names)
        ts = [cx.choose(f"t{i}", names) for i in range(sub[0])]
        s["type"] = ts
        e = b("union", types=[known[t] if t in known else norm_prim(t) for t in ts])
    elif kind == "object":
        props, fields, req = {}, [], []
        for i, x in enumerate(sub):
            name = field_name(cx, "prop", 1, 1, TEXT, f"{i}")
            ps, pe = gen_schema(cx, x, deco)
            props[name] = ps
            pe = dict(pe, extra=dict(pe["extra"]))
            if cx.bool("required"):
                req.append(name)
            else:
                # optional: nullable, with a default (null unless given)
                nullable = pe["kind"] == "null" or (
                    pe["kind"] == "union" and "null" in [t["kind"] for t in pe["types"]]
                )
                if not nullable:
                    d = pe["extra"].pop("default", None)
                    if pe["kind"] == "union":
                        pe["types"] = [norm(T.NullType())] + pe["types"]
                        pe["extra"]["default"] = d
                    else:
                        doc, pe["doc"] = pe["doc"], None
                        pe = b("union", doc=doc, types=[norm(T.NullType()), pe], extra={"default": d})
                elif "default" not in pe["extra"]:
                    pe["extra"]["default"] = None
            pe["extra"]["name"] = name
            fields.append(pe)
        s = {"type": "object", "properties": props}
        if req or cx.bool("required key"):
            # order of "required" is irrelevant
            s["required"] = req[::-1] + ["unrelated"]
        e = b("struct", fields=fields)
    else:
        raise AssertionError(kind)
    e = dict(e, extra=dict(e["extra"]))
    if deco.want("description"):
        s["description"] = e["doc"] = cx.str("description", 1, 1, TEXT)
    if deco.want("default"):
        s["default"] = e["extra"]["default"] = gen_default(cx)
    if deco.want("title"):
        s["title"] = "ignored"
    return s, e


def norm_prim(t):
    return norm(
        {
            "string": T.StringType,
            "number": lambda: T.FloatType(64),
            "integer": lambda: T.IntType(32, signed=True),
            "boolean": T.BoolType,
            "null": T.NullType,
        }[t]()
    )


def read(cx, shape, budget):
    s, e = gen_schema(cx, shape, Deco(cx, budget))
    conv = JSONSchemaConverter()
    got = attempt(conv.to_recap, json.dumps(s))
    cx.check(got[0] == "ok", "a supported JSON schema was rejected")
    n = norm(got[1])
    cx.observe("recap", n)
    cx.check(deep_eq(n, e), "a JSON schema is read as the wrong type")
    # what the converter reads later does not depend on what it has read
    first = freeze(got[1])
    again = attempt(conv.to_recap, json.dumps(LATER))
    cx.check(deep_eq(freeze(got[1]), first), "reading a JSON schema changes the result of an earlier one")
    fresh = attempt(JSONSchemaConverter().to_recap, json.dumps(LATER))
    cx.check(fresh[0] == "ok", "a supported JSON schema was rejected")
    cx.check(again[0] == "ok", "a JSON schema is rejected by a converter that has read another")
    cx.check(deep_eq(norm(again[1]), norm(fresh[1])), "a JSON schema is read differently by a converter that has read another")
    cx.cover("end")


read_words, write_words = words(read), words(write)
LATER = {
    "$id": "http://recap.build/later",
    "type": "object",
    "properties": {"x": {"type": "integer"}, "y": {"type": "array", "items": {"type": "object", "properties": {"z": {"type": "string"}}}}},
    "required": ["x"],
}


def read_ref(cx, where, resolve):
    """an object with an $id that refers to itself"""
    uri = cx.choose("id", ("http://recap.build/node", "https://a.example.com/x/Y_z.json"))
    alias = {"http://recap.build/node": "build.recap.node"}.get(uri, "com.example.a.x.y.z.json")
    ref = cx.choose("ref", ("$ref", "$dynamicRef"))
    s = {
        "$id": uri,
        "type": "object",
        "properties": {"value": {"type": "integer"}, "next": {ref: uri}},
        "required": ["value"],
    }
    doc = cx.bool("doc")
    if doc:
        s["properties"]["next"]["description"] = cx.str("doc.s", 1, 1, TEXT)
    if where == "array":
        s["properties"]["next"] = {"type": "array", "items": {ref: uri}}
    elif where == "required":
        s["required"].append("next")
    c = JSONSchemaConverter()
    t = c.to_recap(json.dumps(s))
    cx.check(t.alias == alias, "an $id is turned into the wrong alias")
    ps = [x for x in walk(t) if isinstance(x, T.ProxyType)]
    cx.check(len(ps) == 1 and ps[0].alias == alias, "a $ref is read as the wrong reference")
    nxt = t.fields[1]
    cx.check(nxt.extra_attrs.get("name") == "next", "a property lost its name")
    if where != "array" and doc:
        cx.check(nxt.doc == s["properties"]["next"]["description"], "a reference lost its description")
    if where != "required":
        cx.check(nxt.is_nullable() and nxt.extra_attrs["default"] is None, "an optional reference is not nullable")
    if resolve:
        r = attempt(ps[0].resolve)
        cx.check(r[0] == "ok", "a reference read from a JSON schema does not resolve")
    cx.cover("end")


URIS = {"http://recap.build/inner": "build.recap.inner", "https://a.example.com/x/Y_z.json": "com.example.a.x.y.z.json"}


def read_external(cx, kind):
    """properties that refer to another document, in the registry or retrieved"""
    uri = cx.choose("uri", tuple(URIS))
    alias = URIS[uri]
    inner, want = {"$id": uri}, {}
    if kind == "object":
        inner |= {"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}
        if cx.bool("self"):
            inner["properties"]["y"] = {"$ref": uri}
    else:
        inner["type"] = "integer"
    if cx.bool("inner doc"):
        inner["description"] = cx.str("inner.s", 1, 1, TEXT)
    how = cx.choose("how", ("retrieved", "registered", "retrieved, others registered"))
    resource = Resource.from_contents(inner, DRAFT202012)
    asked = []

    def retrieve(u):
        asked.append(u.rstrip("#"))
        if u.rstrip("#") != uri:
            raise KeyError(u)
        return resource

    reg = Registry(retrieve=retrieve)
    if how == "registered":
        reg = resource @ reg
    elif how != "retrieved":
        reg = Resource.from_contents({"$id": "http://other/z", "type": "null"}, DRAFT202012) @ reg
    first = {"$ref": uri + ("#" if cx.bool("#") else "")}
    if doc := cx.bool("doc"):
        first["description"] = cx.str("doc.s", 1, 1, TEXT)
    if default := cx.bool("default"):
        first["default"] = cx.int("default.i")
    s = {"type": "object", "properties": {"a": first, "b": {"type": "array", "items": {"$ref": uri}}, "c": {"type": "boolean"}}}
    if required := cx.bool("required"):
        s["required"] = ["a", "b", "c"]
    got = attempt(JSONSchemaConverter(reg).to_recap, json.dumps(s))
    cx.check(got[0] == "ok", "a reference to another document was rejected")
    t = got[1]
    cx.observe("struct", norm(t))
    cx.check(asked == ([] if how == "registered" else [uri]), "a document is not retrieved exactly once")
    cx.check(len(t.fields) == 3 and [f.extra_attrs.get("name") for f in t.fields] == ["a", "b", "c"], "not one field per property")
    a, b, c = t.fields
    cx.check(a.is_nullable() is not required and b.is_nullable() is not required, "a reference is nullable although required, or not although not")
    if default:
        cx.check(deep_eq(a.extra_attrs.get("default", "none"), first["default"]), "a reference lost its default")
    else:
        cx.check(a.extra_attrs.get("default", "none") == ("none" if required else None), "a reference has the wrong default")
    want_doc = first.get("description", inner.get("description"))
    cx.check(deep_eq(a.doc, want_doc), "a reference lost its description")
    if not required:
        cx.check(len(a.types) == 2, "an optional reference has the wrong type")
        a, b = a.types[1], b.types[1]
    cx.check(a.alias == alias, "the document's $id is not the alias")
    if kind == "object":
        cx.check(isinstance(a, T.StructType) and len(a.fields) == len(inner["properties"]), "a document is read as the wrong type")
        cx.check(a.fields[0] == T.IntType(32, signed=True, name="x"), "a document is read as the wrong type")
        if len(a.fields) == 2:
            y = a.fields[1]
            cx.check(y.is_nullable() and y.types[1].alias == alias and isinstance(y.types[1], T.ProxyType), "a document that refers to itself is read as the wrong type")
    else:
        cx.check(isinstance(a, T.IntType) and a.bits == 32 and a.signed is True, "a document is read as the wrong type")
    cx.check(isinstance(b, T.ListType) and isinstance(b.values, T.ProxyType) and b.values.alias == alias, "the second reference does not refer to the document")
    cx.cover("end")


def read_invalid(cx):
    s = cx.choose(
        "schema",
        (
            {"type": "string"},
            {"type": "array", "items": {"type": "string"}},
            {"type": "object", "properties": {"a": {"type": "nope"}}},
            {"type": "object", "properties": {"a": {}}},
            {"type": ["null", "string"]},
        ),
    )
    got = attempt(JSONSchemaConverter().to_recap, json.dumps(s))
    cx.check(got == ("err", "ValueError"), "an unsupported JSON schema is not a ValueError")
    cx.cover("end")


def urn(cx, host, n, fragment=0):
    """alias of a URL: reversed domain, lower-cased path and fragment with every
    special character turned into a dot"""
    path = cx.str("path", n, n, ((48, 57), (65, 70), (97, 102), (45, 47), (95, 95)))
    url = "http://" + host + "/" + path
    if fragment:
        frag = cx.str("fragment", fragment, fragment, ((48, 57), (65, 70), (97, 102), (45, 47), (95, 95)))
        url, path = url + "#" + frag, path + frag
    got = JSONSchemaConverter.urn_to_alias(url)
    want = ".".join(reversed(host.split(".")))
    body = ""
    for i in range(len(path)):
        c = path[i]
        if c == "-" or c == "." or c == "/" or c == "_":
            body = body + "."
        else:
            body = body + c.lower()
    body = body.strip(".")
    cx.observe("alias", got)
    if body:
        cx.check(got == want + "." + body, "a URL is turned into the wrong alias")
        cx.cover("path")


def roundtrip(cx, shape, budget):
    """JSON schema -> Recap -> JSON schema keeps properties, requiredness,
    defaults and descriptions"""
    s, e = gen_schema(cx, shape, Deco(cx, budget, only=("description", "default")))
    t = JSONSchemaConverter().to_recap(json.dumps(s))
    out = JSONSchemaConverter().from_recap(t)
    cx.observe("out", out)
    cx.check(deep_eq(listify(out), expect(e)), "JSON schema -> Recap -> JSON schema changes the schema")
    cx.cover("end")


def strategy(cx):
    """aliases are what the caller's strategy makes of the identifiers, at every
    depth; without one they come from the URL"""
    given = cx.bool("given")
    where = cx.choose("where", ("root", "property", "items", "type", "ref"))
    path = cx.str("path", 1, 2, ((97, 122),))
    url = "http://b.a/" + path
    name = cx.str("name", 1, 2, ((97, 122),))
    inner = {"$id": url, "type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}
    if where == "root":
        s = inner
    elif where == "property":
        s = {"type": "object", "properties": {"p": inner}, "required": ["p"]}
    elif where == "items":
        s = {"type": "object", "properties": {"p": {"type": "array", "items": inner}}, "required": ["p"]}
    elif where == "type":
        s = {"type": "object", "properties": {"p": {"type": [{"type": "string"}, inner]}}, "required": ["p"]}
    else:
        s = {"type": "object", "properties": {"p": inner, "q": {"$ref": url}}, "required": ["p", "q"]}
    asked = []

    def choose(u):
        asked.append(u)
        return "mine." + name

    conv = JSONSchemaConverter()
    t = conv.to_recap(json.dumps(s), choose) if given else conv.to_recap(json.dumps(s))
    f = t if where == "root" else t.fields[0]
    if where == "items":
        f = f.values
    elif where == "type":
        f = f.types[1]
    cx.check(f.alias == ("mine." + name if given else "a.b." + path), "an identifier is not turned into an alias by the strategy")
    if given:
        cx.check(len(asked) > 0, "the strategy was not asked")
        for u in asked:
            cx.check(u == url, "the strategy was asked for another identifier")
    if where == "ref":
        cx.check(t.fields[1].alias == f.alias, "a reference does not have the alias of what it refers to")
    cx.observe("alias", f.alias)
    cx.cover("strategy")
