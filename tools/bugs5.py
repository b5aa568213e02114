import sys; sys.path.insert(0, "/verif")
from tools.seed import seed as _seed
only = set(sys.argv[1:])
def seed(id, *a, **k):
    if not only or id in only:
        _seed(id, *a, **k)
        sys.stdout.flush()
T = "recap/types.py"
AV = "recap/converters/avro.py"
JS = "recap/converters/json_schema.py"
PB = "recap/converters/protobuf.py"
RG = "recap/storage/registry.py"
SV = "recap/server/registry.py"
H = "from recap.types import *\n"
TMP = "import tempfile, os, sys\nd = tempfile.mkdtemp()\nos.environ['RECAP_HOME'] = d + '/home'\n"

seed("S100", "C24", {RG: [("""        quoted_name = quote_plus(name)
""", """        quoted_name = quote_plus(unicodedata.normalize("NFC", name))
"""), ("import json\n", "import json\nimport unicodedata\n")]}, TMP + H + '''
from recap.storage.registry import RegistryStorage
s = RegistryStorage("file://" + d + "/s")
s.put("e\\u0301", BoolType())
assert s.get("\\u00e9") is None and s.ls() == ["e\\u0301"], s.ls()
''', "a name with a combining accent, which has a composed form", "it collides with the composed form")

seed("S101", "C23", {RG: [("""        versions = self.versions(name)
        if not versions:
            return None
        return max(versions)
""", """        if name not in self._latest:
            versions = self.versions(name)
            if not versions:
                return None
            self._latest[name] = max(versions)
        return self._latest[name]
"""), ("""        return version

    def versions(""", """        self._latest[name] = max(version, self._latest.get(name, 0))

        return version

    def versions("""), ("""        self.fs.mkdirs(self.root_path, exist_ok=True)

    def ls""", """        self.fs.mkdirs(self.root_path, exist_ok=True)
        self._latest: dict[str, int] = {}

    def ls""")]}, TMP + H + '''
from recap.storage.registry import RegistryStorage
a = RegistryStorage("file://" + d + "/s")
a.put("n", BoolType(), 5)
b = RegistryStorage("file://" + d + "/s")
assert b.put("n", NullType(), 2) == 2
assert b.put("n", NullType()) == 6, b.versions("n")
''', "a storage opened over earlier versions, in which a lower version is put first", "the next version is not above the highest, or overwrites one")

seed("S102", "C22", {"recap/clients/__init__.py": [("""        parsed_dict["password"] = unquote(password)
""", """        parsed_dict["password"] = unquote(password.replace("+", " "))
""")]}, TMP + '''
from recap.clients import _url_to_dict
assert _url_to_dict("postgresql://u:a+b@h/d")["password"] == "a+b"
''', "a password with a plus sign", "another password is sent")

seed("S103", "C06", {T: [("""        has_non_null = len(non_null_types) == 1
""", """        has_non_null = len(self.types) == 2 and len(non_null_types) > 0
""")]}, H + '''
assert UnionType([NullType(), NullType(doc="x"), BoolType()], default=None).is_optional
''', "a union with two null members and one other type", "it is not optional any more")

seed("S104", "C05", {T: [("""        try:
            return self._type_registry[alias]
        except KeyError:
            raise TypeError(f"No RecapType with alias {alias} found.")
""", """        for known, recap_type in self._type_registry.items():
            if known == alias or known.lower() == alias:
                return recap_type
        raise TypeError(f"No RecapType with alias {alias} found.")
""")]}, H + '''
r = RecapTypeRegistry()
r.register_alias(BoolType(alias="a.Flag"))
try:
    r.from_alias("a.flag")
except TypeError:
    raise SystemExit(0)
raise SystemExit("resolved")
''', "a reference in lower case to an alias with capitals", "an unknown alias resolves")

seed("S105", "C04", {T: [("""        return super().__eq__(other) and self.types == other.types
""", """        return (
            super().__eq__(other)
            and len(self.types) == len(other.types)
            and all(type_ in other.types for type_ in self.types)
        )
""")]}, H + '''
assert UnionType([NullType(), BoolType()]) != UnionType([BoolType(), NullType()])
''', "two unions with the same members in another order", "they compare equal")

seed("S106", "C09", {AV: [("""        recap_schema = self._parse(avro_schema, namespace)
""", """        self.namespace = namespace or self.namespace
        recap_schema = self._parse(avro_schema, self.namespace)
"""), ("""        self.registry = RecapTypeRegistry()

    def from_recap""", """        self.registry = RecapTypeRegistry()
        self.namespace: str | None = None

    def from_recap""")]}, H + '''
import json
from recap.converters.avro import AvroConverter
c = AvroConverter()
c.to_recap(json.dumps({"type": "record", "name": "A", "fields": []}), "ns")
assert c.to_recap(json.dumps({"type": "record", "name": "B", "fields": []})).alias == "_root.B"
''', "two schemas read by one converter, the first with a namespace given", "the second one is put into the namespace of the first")

seed("S107", "C10", {JS: [("""                        if not field.is_nullable():
                            field = field.make_nullable()
""", """                        if not isinstance(field, UnionType | NullType):
                            field = field.make_nullable()
""")]}, H + '''
import json
from recap.converters.json_schema import JSONSchemaConverter
s = JSONSchemaConverter().to_recap(json.dumps({"type": "object", "properties": {"a": {"type": ["string", "integer"]}}}))
assert s.fields[0].is_nullable(), s
''', "a property that is not required and has a list of types without null", "it is not nullable")

seed("S108", "C11", {JS: [("""            for value in recap_type.types:
                defs |= self._generate_alias_defs(value)
""", """            for value in recap_type.types[:2]:
                defs |= self._generate_alias_defs(value)
""")]}, H + '''
from recap.converters.json_schema import JSONSchemaConverter
s = StructType([UnionType([NullType(), BoolType(), StructType([], alias="a.B")], name="u")])
r = JSONSchemaConverter().from_recap(s)
assert "a.B" in r.get("$defs", {}), r
''', "a union whose third member defines an alias", "the document references a definition it does not contain")

seed("S109", "C12", {PB: [("""                        len(message_element.elements)
                        if isinstance(message_element, OneOf)
                        else 1
""", """                        len(field.types) - 1
                        if isinstance(message_element, OneOf)
                        else 1
""")]}, H + '''
from recap.converters.protobuf import ProtobufConverter
s = StructType([UnionType([IntType(32, name="x"), StringType(name="y")], name="u"), BoolType(name="b")], alias="a.B")
m = ProtobufConverter().from_recap(s).file_elements[1]
n = [f.number for f in m.elements[0].elements] + [m.elements[1].number]
assert len(set(n)) == 3, n
''', "a union without null that is followed by another field", "two fields have the same number")

seed("S110", "C13", {PB: [("""        symbols = []
        for element in enum.elements:
            if isinstance(element, EnumValue):
                symbols.append(element.name)
""", """        values = [e for e in enum.elements if isinstance(e, EnumValue)]
        symbols = [e.name for e in sorted(values, key=lambda e: e.number)]
""")]}, H + '''
from recap.converters.protobuf import ProtobufConverter
s = ProtobufConverter().to_recap('syntax = "proto3"; package p; message A { E e = 1; } enum E { X = 0; Z = 2; Y = 1; }')
assert s.fields[0].types[1].symbols == ["X", "Z", "Y"], s
''', "an enum whose values are not declared in the order of their numbers", "the symbols change their order")

seed("S112", "C14", {"recap/converters/hive_metastore.py": [("""                recap_type = UnionType(types=types, default=None, **extra_attrs)
                recap_type = self._flatten_unions(recap_type)
""", """                recap_type = UnionType(types=types, default=None, **extra_attrs)
                if any(isinstance(t, UnionType) for t in types[1:2]):
                    recap_type = self._flatten_unions(recap_type)
""")]}, H + '''
from pymetastore.htypes import *
from recap.converters.hive_metastore import HiveMetastoreConverter
t = HiveMetastoreConverter()._parse_schema(HUnionType([HPrimitiveType(PrimitiveCategory.VOID), HPrimitiveType(PrimitiveCategory.INT)]))
assert not any(isinstance(x, UnionType) for x in t.types), t
''', "a union whose first member is void", "the union is not flattened")

seed("S114", "C28", {"recap/clients/fs.py": [("""        suffix = Path(path).suffix.lower().strip(".")
""", """        suffixes = Path(path).suffixes
        suffix = suffixes[0].lower().strip(".") if suffixes else ""
""")]}, TMP + '''
import json
from recap.clients.fs import FilesystemClient
p = d + "/user.json.avsc"
open(p, "w").write(json.dumps({"type": "record", "name": "A", "fields": []}))
assert FilesystemClient("file").schema(p).alias == "_root.A"
''', "a file name with two suffixes", "the file is read as another format or rejected")

seed("S115", "C29", {"recap/commands.py": [("""    connection_url, method_args = parse_url("schema", url, strict)
    with create_client(connection_url) as client:
        recap_struct = client.schema(*method_args)
""", """    connection_url, method_args = parse_url("schema", url, strict)
    with create_client(connection_url) as client:
        key = (connection_url, *map(str, method_args))
        recap_struct = _schemas.get(key) or client.schema(*method_args)
        _schemas[key] = recap_struct
"""), ("settings = RecapSettings()\n", "settings = RecapSettings()\n_schemas: dict = {}\n")]}, TMP + '''
import json
from recap import commands
p = d + "/user.avsc"
open(p, "w").write(json.dumps({"type": "record", "name": "A", "fields": []}))
a = commands.schema("file://" + p, strict=False)
open(p, "w").write(json.dumps({"type": "record", "name": "B", "fields": []}))
b = commands.schema("file://" + p, strict=False)
assert b["alias"] == "_root.B", b
''', "a schema that changes between two requests for its URL", "the old schema is answered")

seed("S118", "C26", {SV: [("""    type_ = await _request_to_type(request)

    return storage.put(name, type_)
""", """    version = (storage.latest(name) or 0) + 1
    type_ = await _request_to_type(request)

    return storage.put(name, type_, version)
""")]}, TMP + H + '''
import asyncio
from recap.storage.registry import RegistryStorage
from recap.server.registry import post
s = RegistryStorage("file://" + d + "/s")
class R:
    def __init__(self, e): self.e = e; self.headers = {}
    async def body(self):
        await self.e.wait()
        return b'"bool"'
async def main():
    e = asyncio.Event()
    ts = [asyncio.create_task(post("n", R(e), s)) for _ in range(2)]
    await asyncio.sleep(0)
    e.set()
    return await asyncio.gather(*ts)
v = asyncio.run(main())
assert sorted(v) == [1, 2], v
''', "two concurrent POST requests whose bodies arrive after both have started", "both get the same version and one type is lost")

seed("S119", "C25", {RG: [("""        with self.fs.transaction:
            with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
                f.write(type_json)
""", """        try:
            with self.fs.transaction:
                with self.fs.open(f"{path_without_version}/{version}.json", "w") as f:
                    f.write(type_json)
        except OSError:
            self.fs.rm(path_without_version, recursive=True)
            raise
""")]}, TMP + H + '''
from recap.storage.registry import RegistryStorage
s = RegistryStorage("file://" + d + "/s")
s.put("n", BoolType())
real = s.fs.open
def bad(*a, **k):
    raise OSError("disk full")
s.fs.open = bad
try:
    s.put("n", BoolType())
except OSError:
    pass
s.fs.open = real
assert s.versions("n") == [1], s.versions("n")
''', "an I/O error while a further version is written", "the versions stored before are deleted")

seed("S122", "C17", {"recap/clients/sqlite.py": [("""        is_not_null = row["NOTNULL"] or row["PK"]
""", """        is_not_null = row["NOTNULL"] or row["PK"] == 1
""")]}, TMP + H + '''
import sqlite3
from recap.clients.sqlite import SQLiteClient
c = sqlite3.connect(":memory:")
c.execute("CREATE TABLE t (a INTEGER, b INTEGER, PRIMARY KEY (a, b))")
s = SQLiteClient(c).schema("t")
assert not s.fields[1].is_nullable(), s
''', "the second column of a primary key", "it is read as nullable")

seed("S124", "C08", {AV: [("""                    alias_type = self._from_recap(recap_type.resolve())
""", """                    alias_type = self._from_recap(self.registry.from_alias(alias))
""")]}, H + '''
from recap.converters.avro import AvroConverter
t = from_dict({"type": "struct", "fields": [{"type": "decimal128", "name": "a", "precision": 10, "scale": 2}]})
f = AvroConverter().from_recap(t)["fields"][0]
assert f["precision"] == 10, f
''', "a built-in alias with attributes that override it", "the overrides are lost")

seed("S127", "C07", {T: [("""        default = type_dict.pop("default", None)
        if type_dict["type"] != "union":
""", """        default = type_dict.pop("default", None) or None
        if type_dict["type"] != "union":
""")]}, H + '''
assert from_dict({"type": "int32", "optional": True, "default": 0}).extra_attrs["default"] == 0
''', "an optional type with a falsy default", "the default is lost")
