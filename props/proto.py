"""C12 Recap -> Protobuf, C13 Protobuf -> Recap"""

import proto_schema_parser.parser as PP
import recap.types as T
from proto_schema_parser import ast as A
from proto_schema_parser.generator import Generator
from props.lib import BUILTIN, I31, I63, _s, all_of, any_of, attempt, deep_eq, field_name, freeze, neg, norm, overrides, words
from recap.converters.protobuf import ProtobufConverter
from symx.core import ConcreteCtx

LETTER = ((97, 122), (65, 90))
CARD = {None: None, A.FieldCardinality.OPTIONAL: "optional", A.FieldCardinality.REQUIRED: "required", A.FieldCardinality.REPEATED: "repeated"}

# The text <-> syntax tree step is the proto_schema_parser library (ANTLR).  In
# symbolic runs the text is a token and parsing returns the syntax tree it
# stands for; native runs go through the library's generator and parser.
TREES = {}
_parse = PP.Parser.parse


def parse_stub(self, text):
    if text in TREES:
        return TREES[text]
    return _parse(self, text)


PP.Parser.parse = parse_stub


def source(cx, file):
    if isinstance(cx, ConcreteCtx):
        return Generator().generate(file)
    key = f"// tree {len(TREES)}"
    if len(TREES) > 100:
        TREES.clear()
    TREES[key] = file
    return key


class Unmappable(Exception):
    pass


# --------------------------------------------------------------------------
# C12


def gen(cx, shape, st, name=None):
    """a Recap type for a Protobuf message field"""
    at = {} if name is None else {"name": name}
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else shape[1:]
    if kind == "null":
        return T.NullType(**at)
    if kind == "bool":
        return T.BoolType(**at)
    if kind == "int":
        return T.IntType(cx.int("bits", 1, I31), signed=cx.bool("signed"), **at)
    if kind == "narrow":
        return T.IntType(cx.int("bits", 1, 64), signed=cx.bool("signed"), **at)
    if kind == "float":
        return T.FloatType(cx.int("bits", 1, I31), **at)
    if kind in ("string", "bytes"):
        c = T.StringType if kind == "string" else T.BytesType
        v = cx.bool("variable")
        if v and not cx.bool("sized"):
            return c(**at)
        return c(bytes_=cx.int("bytes", 1, I63), variable=v, **at)
    if kind == "text":
        return T.StringType(bytes_=cx.int("bytes", 1, 1000), **at)
    if kind == "builtin":
        b = cx.choose("builtin", tuple(BUILTIN))
        return T.ProxyType(b, st["reg"], **at, **overrides(cx, b))
    if kind == "bproxy":
        return T.ProxyType(cx.choose("builtin", ("int32", "string32", "uint64")), st["reg"], **at)
    if kind == "list":
        return T.ListType(gen(cx, sub[0], st), **at)
    if kind == "map":
        return T.MapType(gen(cx, sub[0], st), gen(cx, sub[1], st), **at)
    if kind == "opt":
        inner = [T.NullType(), gen(cx, sub[0], st)]
        if cx.bool("null.last"):
            inner.reverse()
        return T.UnionType(inner, default=None, **at)
    if kind in ("oneof", "oneof0"):
        types = [T.NullType()] if kind == "oneof0" else []
        for i, s in enumerate(sub):
            st["m"] += 1
            types.append(gen(cx, s, st, cx.str("member", 1, 1, LETTER) + f"_m{st['m']}"))
        return T.UnionType(types, default=None, **at)
    if kind == "enum":
        st["n"] += 1
        al = alias(cx, st, f"E{st['n']}")
        return T.EnumType([cx.str("symbol", 1, 1, LETTER) + f"_S{i}" for i in range(cx.choose("nsym", (1, 3)))], alias=al, **at)
    if kind == "struct":
        st["n"] += 1
        al = alias(cx, st, f"M{st['n']}")
        outer, st["outer"] = st["outer"], al
        t = struct(cx, sub, al, st, **at)
        st["outer"] = outer
        return t
    if kind == "self":
        return T.ProxyType(st["root"], st["reg"], **at)
    raise AssertionError(kind)


def alias(cx, st, name):
    where = cx.choose("alias.in", st["where"])
    if where == "sibling":
        return st["pkg"] + "." + name
    if where == "nested":
        return st["outer"] + "." + name
    if where == "undeclarable":  # below a name that is neither the package nor a message
        return st["pkg"] + ".sub." + name
    return "other." + name


def struct(cx, shapes, al, st, **at):
    fields = []
    for i, s in enumerate(shapes):
        named = not st["unnamed"] or cx.bool("named")
        if not named:
            st["unnamed"] = False
        fields.append(gen(cx, s, st, field_name(cx, "name", 1, 1, LETTER, f"_{i}") if named else None))
    return T.StructType(fields, alias=al, **at)


def want_type(n):
    """(kind, ...) of a Protobuf field for the normal form of a Recap type"""
    k = n["kind"]
    if k == "null":
        return ("field", None, "google.protobuf.NullValue")
    if k == "bool":
        return ("field", None, "bool")
    if k == "int":
        if n["bits"] > 64:
            raise Unmappable()
        w = "32" if n["bits"] <= 32 else "64"
        return ("field", None, ("int" if n["signed"] else "uint") + w)
    if k == "float":
        if n["bits"] > 64:
            raise Unmappable()
        return ("field", None, "float" if n["bits"] <= 32 else "double")
    if k in ("string", "bytes"):
        if n["bytes_"] is not None and n["bytes_"] > 2_147_483_648:
            raise Unmappable()
        return ("field", None, k)
    if k in ("struct", "enum", "proxy"):
        return ("field", None, "." + n["alias"])
    if k == "list":
        e = want_type(n["values"])
        if e[0] != "field" or e[1] == "repeated":
            raise Unmappable()
        return ("field", "repeated", e[2])
    if k == "map":
        kk, v = want_type(n["keys"]), want_type(n["values"])
        if kk[0] != "field" or kk[1] is not None:
            raise Unmappable()
        if kk[2] not in ("bool", "string", "int32", "int64", "uint32", "uint64"):
            raise Unmappable()
        if v[0] != "field" or v[1] == "repeated":
            raise Unmappable()
        return ("map", kk[2], v[2])
    if k == "union":
        some = [t for t in n["types"] if t["kind"] != "null"]
        if len(some) == 1:
            e = want_type(some[0])
            if e[0] == "field" and e[1] is None:
                return ("field", "optional", e[2])
            if e[0] == "oneof":
                raise Unmappable()
            return e
        out = []
        for t in some:
            e = want_type(t)
            if e[0] != "field" or e[1] is not None:
                raise Unmappable()
            out.append((t["extra"].get("name"), e))
        return ("oneof", out)
    raise AssertionError(k)


def decls(elements, path, out):
    for e in elements:
        if isinstance(e, (A.Message, A.Enum)):
            out.append((path + "." + e.name, e))
            if isinstance(e, A.Message):
                decls(e.elements, path + "." + e.name, out)


def named(n, out):
    """(alias, normal form) of every struct and enum of a tree"""
    if n["kind"] in ("struct", "enum"):
        out.append((n["alias"], n))
    for x in n.get("fields", []) + n.get("types", []):
        named(x, out)
    for k in ("keys", "values"):
        if k in n:
            named(n[k], out)
    return out


def write(cx, shapes, where=("sibling",), unnamed=False):
    st = {"reg": T.RecapTypeRegistry(), "n": 0, "m": 0, "pkg": "p.q", "root": "p.q.Root", "outer": "p.q.Root", "where": where, "unnamed": unnamed}
    t = struct(cx, shapes, st["root"], st)
    before = freeze(t)
    n = norm(t)
    types = named(n, [])
    paths = [a for a, _ in types]
    try:
        want = {a: [want_type(f) for f in x["fields"]] for a, x in types if x["kind"] == "struct"}
        structs = [a for a, x in types if x["kind"] == "struct"]
        for a in paths:
            if a.rsplit(".", 1)[0] not in structs + [st["pkg"]]:
                raise Unmappable()
    except Unmappable:
        want = None
    got = attempt(ProtobufConverter().from_recap, t)
    cx.check(deep_eq(freeze(t), before), "from_recap modified the type")
    if want is None:
        cx.check(got[0] == "err", "a type Protobuf cannot express was converted")
        cx.cover("unmappable")
        return
    cx.check(got[0] == "ok", "a type Protobuf can express was rejected: " + (got[1] if got[0] == "err" else "ok"))
    file = got[1]
    pk = [e for e in file.file_elements if isinstance(e, A.Package)]
    cx.check(len(pk) == 1 and pk[0].name == st["pkg"], "the file does not declare its package")
    out = []
    decls(file.file_elements, pk[0].name, out)
    cx.check(sorted(p for p, _ in out) == sorted(paths), "messages and enums are not declared once each, under their own name")
    for path, e in out:
        x = dict(types)[path]
        if x["kind"] == "enum":
            cx.check(isinstance(e, A.Enum), "an enum is not declared as enum")
            cx.check(deep_eq([v.name for v in e.elements], x["symbols"]), "enum symbols changed")
            cx.check([v.number for v in e.elements] == list(range(len(x["symbols"]))), "enum values are not numbered 0, 1, ...")
            continue
        cx.check(isinstance(e, A.Message), "a struct is not declared as message")
        fs = [f for f in e.elements if not isinstance(f, (A.Message, A.Enum))]
        cx.check(len(fs) == len(want[path]), "not one Protobuf field per struct field")
        numbers, names = [], []
        for f, w, src in zip(fs, want[path], x["fields"]):
            nm = src["extra"].get("name")
            if w[0] == "oneof":
                cx.check(isinstance(f, A.OneOf), "a union is not a oneof")
                cx.check(len(f.elements) == len(w[1]), "a oneof lost members")
                for g, (mname, mw) in zip(f.elements, w[1]):
                    field(cx, g, mw, mname)
                    numbers.append(g.number)
                    names.append(g.name)
            else:
                field(cx, f, w, nm)
                numbers.append(f.number)
            names.append(f.name)
            if nm is not None:
                cx.check(f.name == nm, "a field lost its name")
        for i, a in enumerate(numbers):
            cx.check(all_of(a >= 1, a <= 536_870_911), "a field number is out of range")
            for b in numbers[:i]:
                cx.check(neg(a == b), "two fields share a field number")
        for i, a in enumerate(names):
            cx.check(neg(a == ""), "a field has no name")
            for b in names[:i]:
                # generated names of members repeat only if the input's do
                cx.check(neg(a == b), "two fields share a name")
    cx.observe("file", [[p, [[type(f).__name__, f.name] for f in e.elements]] for p, e in out])
    cx.cover("mapped")


write_words = words(write, str.isidentifier)


def field(cx, f, w, name):
    if w[0] == "map":
        cx.check(isinstance(f, A.MapField), "a map is not a map field")
        cx.check(f.key_type == w[1] and f.value_type == w[2], "a map field has the wrong types")
    else:
        cx.check(isinstance(f, A.Field), "not a plain field")
        cx.check(f.type == w[2], "a field has the wrong type")
        cx.check(CARD[f.cardinality] == w[1], "a field has the wrong cardinality")
    if name is not None:
        cx.check(f.name == name, "a field lost its name")


# --------------------------------------------------------------------------
# C13

S31 = {"bytes_": 2_147_483_648, "variable": True}
SCALARS = {
    "string": _s("string", **S31),
    "bool": _s("bool"),
    "bytes": _s("bytes", **S31),
    "int32": _s("int", bits=32, signed=True),
    "int64": _s("int", bits=64, signed=True),
    "uint32": _s("int", bits=32, signed=False),
    "uint64": _s("int", bits=64, signed=False),
    "sint32": _s("int", bits=32, signed=True),
    "sint64": _s("int", bits=64, signed=True),
    "fixed32": _s("int", bits=32, signed=False),
    "fixed64": _s("int", bits=64, signed=False),
    "sfixed32": _s("int", bits=32, signed=True),
    "sfixed64": _s("int", bits=64, signed=True),
    "float": _s("float", bits=32),
    "double": _s("float", bits=64),
    "google.protobuf.NullValue": _s("null"),
    "google.protobuf.Timestamp": _s("int", "build.recap.Timestamp", {"unit": "nanosecond", "timezone": "UTC"}, bits=64, signed=True),
    "google.protobuf.Duration": _s("int", "build.recap.Duration", {"unit": "nanosecond"}, bits=64, signed=True),
}
KEYS = ("string", "bool", "int32", "uint64", "sint32", "fixed64")
PLAIN = ("string", "uint32", "double", "bytes", "bool")


def ntype(n, **extra):
    return dict(n, extra=dict(n["extra"], **extra))


def nunion(types, **extra):
    return dict(_s("union", types=types), extra=extra)


def ref(path):
    return {"ref": path}


class Doc:
    """a .proto file under construction: syntax tree + what it must be read as"""

    def __init__(self, cx, pkg, wkt=True, cards=(None, "optional", "required", "repeated"), lean=False):
        self.cx, self.pkg, self.wkt, self.cards = cx, pkg, wkt, cards
        self.lean = lean
        if lean:
            self.cards = (None, "repeated")
        self.want = {}

    def scalar(self, label, short=False):
        opts = (PLAIN[:1] if self.lean else PLAIN) if short else tuple(k for k in SCALARS if self.wkt or not k.startswith("google.protobuf.") or k.endswith(self.null))
        k = self.cx.choose(label, opts)
        if k.startswith("google.protobuf.") and not self.lean and self.cx.bool("well-known.rooted"):
            return "." + k, SCALARS[k]
        return k, SCALARS[k]

    null = "NullValue"

    def typ(self, s):
        """(type name in the file, expected normal form)"""
        if s.startswith("@"):
            name = s[1:]
            full = self.pkg + "." + name
            hows = ("short", "rooted") if self.lean else ("short", "full", "rooted")
            if self.pkg == "_root":
                hows = ("short", "root") if self.lean else hows + ("root",)
            how = self.cx.choose("ref", hows)
            return {"short": name, "full": full, "rooted": "." + full, "root": "." + name}[how], ref(full)
        return self.scalar("type", short=s == "plain")

    def message(self, name, shapes):
        cx = self.cx
        elements, want, num = [], [], 1
        for i, s in enumerate(shapes):
            kind = s if isinstance(s, str) else s[0]
            fname = cx.str("name", 1, 1, LETTER) + f"_{i}"
            if kind == "map":
                k = cx.choose("key", KEYS)
                ty, w = self.typ(s[1])
                elements.append(A.MapField(fname, num, k, ty))
                want.append(nunion([_s("null"), _s("map", keys=SCALARS[k], values=w)], default=None, name=fname))
            elif kind == "oneof":
                members, ws = [], [_s("null")]
                if not self.wkt:
                    self.null = "-"
                for j, x in enumerate(s[1:]):
                    ty, w = self.typ(x)
                    mname = cx.str("member", 1, 1, LETTER) + f"_m{j}"
                    members.append(A.Field(mname, num, ty))
                    ws.append(dict(w, name=mname) if "ref" in w else ntype(w, name=mname))
                    num += 1
                elements.append(A.OneOf(fname, members))
                want.append(nunion(ws, default=None, name=fname))
                self.null = "NullValue"
                continue
            elif kind == "message":
                elements.append(self.message(s[1], s[2:]))
                continue
            elif kind == "enum":
                elements.append(self.enum(s[1]))
                continue
            else:
                ty, w = self.typ(kind)
                card = cx.choose("card", self.cards)
                elements.append(A.Field(fname, num, ty, None if card is None else A.FieldCardinality(card.upper())))
                null = w.get("kind") == "null"
                if card == "repeated":
                    w = _s("list", values=w, length=None, variable=True)
                    null = False
                if card == "required":
                    want.append(dict(w, name=fname) if "ref" in w else ntype(w, name=fname))
                elif null:
                    want.append(ntype(w, name=fname, default=None))
                else:
                    want.append(nunion([_s("null"), w], default=None, name=fname))
            num += 1
        self.want[self.pkg + "." + name] = ("struct", want)
        return A.Message(name, elements)

    def enum(self, name):
        # the first value is 0; the others come in any order
        nums = self.cx.choose("symbols", ((0,), (0, 1), (0, 2, 1)))
        syms = [self.cx.str("symbol", 1, 1, LETTER) + f"_{name}_S{i}" for i in range(len(nums))]
        self.want[self.pkg + "." + name] = ("enum", syms)
        return A.Enum(name, [A.EnumValue(s, i) for s, i in zip(syms, nums)])


def strip(n, defs, refs, top=False):
    """replace every named type by a reference; collect definitions"""
    n = dict(n)
    if not top and n["kind"] in ("struct", "enum", "proxy") and n["alias"] is not None:
        if n["kind"] == "proxy":
            refs.append(n["alias"])
        else:
            defs.append((n["alias"], strip(n, defs, refs, True)))
        r = ref(n["alias"])
        if "name" in n["extra"]:
            r["name"] = n["extra"]["name"]
        return r
    for k in ("fields", "types"):
        if k in n:
            n[k] = [strip(x, defs, refs) for x in n[k]]
    for k in ("keys", "values"):
        if k in n:
            n[k] = strip(n[k], defs, refs)
    return n


def reachable(want, root):
    seen, todo = [], [root]
    while todo:
        a = todo.pop()
        if a in seen or a not in want:
            continue
        seen.append(a)
        if want[a][0] == "struct":
            refs_in(want[a][1], todo)
    return seen


def refs_in(x, out):
    if isinstance(x, dict):
        if "ref" in x:
            out.append(x["ref"])
        for v in x.values():
            refs_in(v, out)
    elif isinstance(x, list):
        for v in x:
            refs_in(v, out)


def proxies(t, out):
    if isinstance(t, T.ProxyType):
        out.append(t)
    for k in ("values", "keys"):
        if isinstance(getattr(t, k, None), T.RecapType):
            proxies(getattr(t, k), out)
    for k in ("fields", "types"):
        for x in getattr(t, k, None) or ():
            proxies(x, out)
    return out


def compare(cx, t, want, root):
    """t is the struct that the document's first message describes"""
    cx.check(isinstance(t, T.StructType), "the result is not a struct")
    n = norm(t, False)
    defs, refs = [], []
    strip(n, defs, refs)
    names = [a for a, _ in defs]
    cx.check(len(names) == len(set(names)), "a message or enum is defined twice in the result")
    cx.check(sorted(names) == sorted(reachable(want, root)), "not every reachable message and enum is part of the result")
    for a, d in defs:
        kind, w = want[a]
        cx.check(d["kind"] == kind and d["logical"] is None and d["doc"] is None, "a definition has the wrong kind")
        if kind == "enum":
            cx.check(deep_eq(d["symbols"], w), "enum symbols changed")
        else:
            cx.check(len(d["fields"]) == len(w), "not one field per Protobuf field")
            for f, x in zip(d["fields"], w):
                cx.check(deep_eq(f, x), "a field does not have the name, type and nullability of the Protobuf field")
    for p in proxies(t, []):
        r = p.resolve()
        cx.check(p.alias in names, "a reference to something undefined")
        d = strip(norm(r, False), [], [], True)
        x = dict(defs)[p.alias]
        cx.check(deep_eq({k: v for k, v in d.items() if k not in ("alias", "extra")}, {k: v for k, v in x.items() if k not in ("alias", "extra")}), "a reference resolves to something else")


def read(cx, messages, package=True, again=False, lean=False):
    """messages: [[name, field shapes...]]; the first one is the result"""
    pkg = cx.choose("pkg", ("a", "a.b")) if package else "_root"
    doc = Doc(cx, pkg, lean=lean)
    els = [A.Package(pkg)] if package else []
    for m in messages:
        els.append(doc.enum(m[1]) if m[0] == "enum" else doc.message(m[0], m[1:]))
    root = pkg + "." + next(m[0] for m in messages if m[0] != "enum")
    if package and not lean and cx.bool("package.last"):
        els.append(els.pop(0))
    conv = ProtobufConverter()
    t = conv.to_recap(source(cx, A.File(syntax="proto3", file_elements=els)))
    compare(cx, t, doc.want, root)
    cx.observe("struct", norm(t, False))
    if again:
        # a converter can read several files: names of earlier ones are known
        doc2 = Doc(cx, "z" if cx.bool("pkg2") else "_root")
        els2 = [A.Package("z")] if doc2.pkg == "z" else []
        how = cx.choose("how", ("." + root, root) + (("." + root[6:],) if pkg == "_root" else ()))
        f = A.Field("earlier", 1, how)
        fs = [f, A.Field("x", 2, "int32")]
        els2.append(A.Message("Later", fs))
        # a name that the earlier file has as well means the type of this file
        short = root.rpartition(".")[2]
        both = doc2.pkg != pkg and cx.bool("same name")
        if both:
            fs.append(A.Field("own", 3, short))
            els2.append(A.Message(short, [A.Field("w", 1, "bool")]))
        first = freeze(t)
        t2 = conv.to_recap(source(cx, A.File(file_elements=els2)))
        cx.check(deep_eq(freeze(t), first), "reading a file changes the result of an earlier one")
        want = dict(doc.want)
        want[doc2.pkg + ".Later"] = ("struct", [
            nunion([_s("null"), ref(root)], default=None, name="earlier"),
            nunion([_s("null"), SCALARS["int32"]], default=None, name="x"),
        ] + ([nunion([_s("null"), ref(doc2.pkg + "." + short)], default=None, name="own")] if both else []))
        if both:
            want[doc2.pkg + "." + short] = ("struct", [nunion([_s("null"), SCALARS["bool"]], default=None, name="w")])
        compare(cx, t2, want, doc2.pkg + ".Later")
        t3 = conv.to_recap(source(cx, A.File(file_elements=[A.Message("Third", [A.Field("y", 1, "bool")])])))
        cx.check(t3.alias == "_root.Third", "a later file is read in the wrong package")
        cx.cover("again")
    cx.cover("end")


def roundtrip(cx, messages, package=True, lean=False):
    """reading what was written for something that was read gives it back"""
    pkg = "a.b" if package else "_root"
    doc = Doc(cx, pkg, wkt=False, cards=(None, "repeated"), lean=lean)
    els = [A.Package(pkg)] if package else []
    for m in messages:
        els.append(doc.enum(m[1]) if m[0] == "enum" else doc.message(m[0], m[1:]))
    t = ProtobufConverter().to_recap(source(cx, A.File(file_elements=els)))
    file = ProtobufConverter().from_recap(t)
    t2 = ProtobufConverter().to_recap(source(cx, order(file, t.alias)))
    a, b = norm(t, False), norm(t2, False)
    cx.check(deep_eq(canon(a), canon(b)), "writing and reading back changed the schema")
    d = T.from_dict(T.to_dict(t))
    cx.check(deep_eq(norm(d, False)["alias"], t.alias), "the schema that was read cannot be written as a dictionary")
    cx.cover("end")


def order(file, root):
    """put the message that is the result first"""
    first = [e for e in file.file_elements if isinstance(e, A.Message) and root.endswith("." + e.name)]
    return A.File(file_elements=[e for e in file.file_elements if isinstance(e, A.Package)] + first + [e for e in file.file_elements if e not in first and not isinstance(e, A.Package)])


def canon(n):
    defs, refs = [], []
    strip(n, defs, refs)
    return {a: d for a, d in defs}


def read_invalid(cx):
    k = cx.choose("case", ("empty", "only-enum", "unknown-type", "map-key", "twice"))
    pkg = cx.choose("pkg", (None, "a"))
    els = [] if pkg is None else [A.Package(pkg)]
    if k == "only-enum":
        els.append(A.Enum("E", [A.EnumValue("X", 0)]))
    elif k == "unknown-type":
        els.append(A.Message("M", [A.Field("x", 1, cx.choose("type", ("Nope", "a.Nope", "int31")))]))
    elif k == "map-key":
        els.append(A.Message("M", [A.MapField("x", 1, cx.choose("key", ("float", "bytes", "M")), "bool")]))
    elif k == "twice":
        els += [A.Message("M", [A.Field("x", 1, "bool")]), A.Message("M", [A.Field("y", 1, "bool")])]
    conv = ProtobufConverter()
    got = attempt(conv.to_recap, source(cx, A.File(file_elements=els)))
    cx.check(got[0] == "err", "an invalid Protobuf schema was accepted")
    # which does not change how files read later are understood
    pkg = cx.choose("pkg2", (None, "b"))
    els = [] if pkg is None else [A.Package(pkg)]
    els.append(A.Message("Later", [A.Field("x", 1, "Other"), A.Field("y", 2, "bool")]))
    els.append(A.Message("Other", [A.Field("z", 1, "bool")]))
    t = conv.to_recap(source(cx, A.File(file_elements=els)))
    ns = pkg or "_root"
    cx.check(t.alias == ns + ".Later", "a file read after an invalid one is read in the wrong package")
    cx.check(len(t.fields) == 2 and t.fields[0].types[1].alias == ns + ".Other", "a file read after an invalid one is read differently")
    cx.cover("end")
