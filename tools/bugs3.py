import sys; sys.path.insert(0, "/verif")
from tools.seed import seed as _seed
only = set(sys.argv[1:])
def seed(id, *a, **k):
    if not only or id in only:
        _seed(id, *a, **k)
T = "recap/types.py"
AV = "recap/converters/avro.py"
JS = "recap/converters/json_schema.py"
PB = "recap/converters/protobuf.py"
H = "from recap.types import *\n"

seed("S39", "C13", {PB: [("""            recap_type.values = self._resolve_proxies(recap_type.values, resolved, seen)
        elif isinstance(recap_type, UnionType):""", """            recap_type.values = self._resolve_proxies(
                recap_type.values, resolved.copy(), seen
            )
        elif isinstance(recap_type, UnionType):""")]}, H + '''
from recap.converters.protobuf import ProtobufConverter
s = ProtobufConverter().to_recap("""syntax = "proto3"; package p;
message A { map<string, B> m = 1; B b = 2; }
message B { int32 x = 1; }""")
from_dict(to_dict(s))
''', "a message used as a map value and again in a later field", "the message is defined twice in the result")

seed("S40", "C09", {AV: [("""                values = self._parse(items, namespace)
                return_type = ListType""", """                values = self._parse(items, avro_schema.get("namespace"))
                return_type = ListType""")]}, H + '''
import json
from recap.converters.avro import AvroConverter
r = AvroConverter().to_recap(json.dumps({"type": "record", "name": "R", "namespace": "a.b", "fields": [
  {"name": "x", "type": {"type": "array", "items": {"type": "enum", "name": "E", "symbols": ["A"]}}},
  {"name": "y", "type": "E"}]}))
assert r.fields[0].values.alias == "a.b.E", r
r.fields[1].resolve()
''', "a named type that is defined in an array's items", "the type loses the enclosing namespace and references to it do not resolve")

seed("S41", "C08", {AV: [("""            case FloatType(bits=int(bits)) if bits <= 64:
""", """            case FloatType():
""")]}, H + '''
from recap.converters.avro import AvroConverter
try:
    r = AvroConverter().from_recap(FloatType(80))
except ValueError:
    raise SystemExit(0)
raise SystemExit(f"{r}")
''', "a float wider than 64 bits", "it is written as a double instead of being rejected")

seed("S42", "C10", {JS: [("""        path = parsed.path + parsed.fragment
""", """        path = parsed.path
""")]}, H + '''
import json
from recap.converters.json_schema import JSONSchemaConverter
c = JSONSchemaConverter()
assert c.urn_to_alias("https://example.com/a#b") == "com.example.ab", c.urn_to_alias("https://example.com/a#b")
''', "an identifier with a fragment", "identifiers that differ in their fragment only get the same alias")

seed("S43", "C05", {T: [('''ALIAS_REGEX = r"^[a-zA-Z_][a-zA-Z0-9_]*(?:\\.[a-zA-Z_][a-zA-Z0-9_]*)+$"''',
 '''ALIAS_REGEX = r"^[a-zA-Z_]\\w*(?:\\.[a-zA-Z_]\\w*)+$"''')]}, H + '''
try:
    from_dict({"type": "bool", "alias": "a.b\\u00e9"})
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "an alias with a letter that is not ASCII", "the alias is accepted")

seed("S44", "C05", {T: [("""            for attr, value in self.extra_attrs.items():
""", """            for attr, value in self.extra_attrs.items():
                if value is None:
                    continue
""")]}, H + '''
reg = RecapTypeRegistry()
from_dict({"type": "int", "bits": 8, "alias": "a.b", "unit": "day"}, reg)
p = from_dict({"type": "a.b", "default": None}, reg)
assert "default" in p.resolve().extra_attrs, p.resolve()
''', "a reference that sets an attribute to null", "the override is dropped")

seed("S45", "C04", {T: [("""        return super().__eq__(other) and self.types == other.types
""", """        return super().__eq__(other) and all(t in other.types for t in self.types)
""")]}, H + '''
a, b = UnionType([NullType()]), UnionType([NullType(), BoolType()])
assert a != b and b != a
''', "two unions of which one contains the members of the other", "they compare equal")

seed("S46", "C17", {"recap/clients/sqlite.py": [("""type='table' AND name=?\"""", """type='table' AND name LIKE ?\"""")]}, H + '''
import sqlite3
from recap.clients.sqlite import SQLiteClient
c = sqlite3.connect(":memory:")
c.execute("create table axb (i int)")
try:
    r = SQLiteClient(c).schema("a_b")
except ValueError:
    raise SystemExit(0)
raise SystemExit(f"{r}")
''', "a missing table whose name matches an existing one as a pattern", "an empty schema is returned for a table that does not exist")

seed("S47", "C14", {"recap/converters/hive_metastore.py": [("""                if precision > 38:
""", """                if precision >= 38:
""")]}, H + '''
from pymetastore.htypes import *
from pymetastore.metastore import HColumn, HTable
from recap.converters.hive_metastore import HiveMetastoreConverter
t = HiveMetastoreConverter()._parse_schema(HColumn("a", HDecimalType(38, 2)))
assert t.types[1].extra_attrs["precision"] == 38
''', "a decimal of the highest precision, 38", "the table is rejected")

seed("S48", "C18", {"recap/converters/bigquery.py": [("""            if field.mode == "NULLABLE":
""", """            if field.mode == "NULLABLE" and field.default_value_expression is None:
""")]}, H + '''
from google.cloud import bigquery
from recap.converters.bigquery import BigQueryConverter
s = BigQueryConverter().to_recap([bigquery.SchemaField("a", "STRING", default_value_expression="'x'")])
assert isinstance(s.fields[0], UnionType), s
''', "a nullable field with a default", "the field is read as not nullable")

seed("S49", "C23", {"recap/storage/registry.py": [("""        quoted_name = self._quote(name)

        if version is None:
            versions = self.versions(name)
""", """        quoted_name = self._quote(name)

        if not version:
            versions = self.versions(name)
""")]}, H + '''
import tempfile
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    s = RegistryStorage("file://" + d)
    s.put("a", BoolType(), 0)
    s.put("a", NullType(), 3)
    assert s.get("a", 0) == (BoolType(), 0), s.get("a", 0)
''', "a version 0 next to a higher one", "reading version 0 returns the latest version")

seed("S50", "C26", {"recap/server/registry.py": [("""    if versions := storage.versions(name):
        return versions
    else:
        raise HTTPException(status_code=404, detail="Not found")
""", """    return storage.versions(name) or []
""")]}, H + '''
import tempfile
from fastapi.testclient import TestClient
from recap.server.app import app
from recap.server.registry import get_storage
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    app.dependency_overrides[get_storage] = lambda: RegistryStorage("file://" + d)
    assert TestClient(app).get("/registry/nope/versions").status_code == 404
''', "asking for the versions of an unknown name", "it is answered with an empty list instead of 404")

seed("S51", "C21", {"recap/settings.py": [("""                merged_qs = unsafe_qs | url_qs
""", """                merged_qs = url_qs | unsafe_qs
""")]}, H + '''
from recap.settings import RecapSettings
s = RecapSettings(urls=["mysql://u:p@h/db?a=1"])
assert s.unsafe_url("mysql://h/db?a=2").endswith("?a=2"), s.unsafe_url("mysql://h/db?a=2")
''', "a query parameter that both the requested and the configured URL have", "the configured value wins")

seed("S52", "C22", {"recap/clients/confluent_registry.py": [("""                subject = url_args["paths"].pop(-1)
""", """                subject = url_args["paths"].pop(0)
""")]}, H + '''
from recap.clients import parse_url
r = parse_url("schema", "http+csr://h:1/base/subj", strict=False)
assert r == ("http+csr://h:1/base", ["subj"]), r
''', "a schema registry below a path", "base path and subject are swapped")

seed("S53", "C28", {"recap/clients/fs.py": [("""        suffix = Path(path).suffix.lower().strip(".")
""", """        suffix = Path(path).suffix.strip(".")
""")]}, H + '''
import tempfile, os
from recap.clients.fs import FilesystemClient
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.JSON")
    open(p, "w").write('{"type": "object", "properties": {}}')
    assert FilesystemClient("file").schema(p) == StructType([])
''', "a suffix in upper case", "the file is rejected")

seed("S54", "C29", {"recap/server/gateway.py": [("""        return commands.schema(url, format)
""", """        return commands.schema(url, format, strict=url.startswith("http"))
""")]}, H + '''
import tempfile, os
from fastapi.testclient import TestClient
from recap.server.app import app
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "a.json")
    open(p, "w").write('{"type": "object", "properties": {}}')
    try:
        r = TestClient(app).get("/gateway/schema/file://" + p)
    except ValueError:
        raise SystemExit(0)
    raise SystemExit(r.text)
''', "a gateway request for the schema of a URL that is not configured", "the gateway reads it")

seed("S55", "C25", {"recap/storage/registry.py": [("""        type_json = json.dumps(to_dict(type_))

        self.fs.mkdirs(path_without_version, exist_ok=True)
""", """        self.fs.mkdirs(path_without_version, exist_ok=True)
        type_json = json.dumps(to_dict(type_))
""")]}, H + '''
import tempfile
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    s = RegistryStorage("file://" + d)
    try:
        s.put("a", RecapType("other"))
    except ValueError:
        pass
    assert s.ls() == [], s.ls()
''', "a put of a type that cannot be written", "the failed put leaves the name in the listing")

seed("S56", "C27", {"recap/clients/dbapi.py": [("""                WHERE catalog_name = {self.param_style}
""", """                WHERE catalog_name LIKE {self.param_style}
""")]}, H + '''
import sqlite3
from recap.clients.dbapi import DbapiClient
class C(DbapiClient):
    param_style = "?"
c = sqlite3.connect(":memory:")
c.execute("attach ':memory:' as information_schema")
c.execute("create table information_schema.schemata (catalog_name text, schema_name text)")
c.executemany("insert into information_schema.schemata values (?,?)", [("a_b", "s1"), ("axb", "s2")])
r = C(c, None).ls("a_b")
assert r == ["s1"], r
''', "a catalog whose name, as a pattern, matches another", "schemas of other catalogs are listed")

seed("S58", "C16", {"recap/converters/dbapi.py": [("""int(unit) <= 3:""", """int(unit) < 3:""")]}, H + '''
from recap.converters.mysql import MysqlConverter
c = MysqlConverter()
assert c._get_time_unit(["3"]) == "millisecond"
''', "a timestamp with precision 3", "it is read as microseconds")

seed("S59", "C11", {JS: [("""        elif isinstance(recap_type, MapType):
            defs |= self._generate_alias_defs(recap_type.values)
""", """        elif isinstance(recap_type, MapType) and recap_type.values.alias:
            defs |= self._generate_alias_defs(recap_type.values)
""")]}, H + '''
from recap.converters.json_schema import JSONSchemaConverter
s = StructType([MapType(StringType(), ListType(IntType(8, alias="a.b")), name="m")])
r = JSONSchemaConverter().from_recap(s)
assert "a.b" in r.get("$defs", {}), r
''', "an aliased type nested inside the values of a map", "the document references a definition it does not contain")

seed("S60", "C12", {PB: [("""                    EnumValue(symbol, idx)
                    for symbol, idx in zip(
                        recap_type.symbols, range(len(recap_type.symbols))
                    )
""", """                    EnumValue(symbol, recap_type.symbols.index(symbol))
                    for symbol in sorted(recap_type.symbols)
""")]}, H + '''
from recap.converters.protobuf import ProtobufConverter
f = ProtobufConverter().from_recap(StructType([EnumType(["B", "A"], alias="p.E", name="e")], alias="p.M"))
e = [x for x in f.file_elements if type(x).__name__ == "Enum"][0]
assert [(v.name, v.number) for v in e.elements] == [("B", 0), ("A", 1)], e
''', "an enum whose symbols are not in alphabetical order", "proto3 needs the first declared value to be zero; values are declared out of order")

seed("S61", "C07", {T: [("""                type_dict["fields"] = [
                    from_dict(f, registry) for f in type_dict.get("fields", [])
                ]
""", """                type_dict["fields"] = [
                    from_dict(f, registry) for f in type_dict.get("fields", []) if f
                ]
""")]}, H + '''
try:
    r = from_dict({"type": "struct", "fields": [{}, "bool"]})
except (AssertionError, ValueError):
    raise SystemExit(0)
raise SystemExit(f"{r}")
''', "a struct with an empty field", "the field is dropped instead of being rejected")

seed("S62", "C01", {T: [("""        if "fields" in type_dict and type_name == "struct":
            type_dict["fields"] = [clean_dict(field) for field in type_dict["fields"]]
""", """        if "fields" in type_dict:
            type_dict["fields"] = [clean_dict(field) for field in type_dict["fields"]]
""")]}, H + '''
t = EnumType(["A"], fields=["a"])
clean_dict(to_dict(t, clean=False))
t = EnumType(["A"], fields=[{"type": "int", "bits": 8, "signed": True}])
assert from_dict(to_dict(t)) == t, to_dict(t)
''', "an extra attribute named fields on a type other than struct", "it is cleaned as if it held types")

seed("S63", "C15", {"recap/converters/dbapi.py": [("""        fields = []
        for column in columns:
""", """        fields = []
        seen = set()
        for column in columns:
            if column["COLUMN_NAME"].lower() in seen:
                continue
            seen.add(column["COLUMN_NAME"].lower())
""")]}, H + '''
from recap.converters.postgresql import PostgresqlConverter
def col(n): return {"COLUMN_NAME": n, "DATA_TYPE": "boolean", "IS_NULLABLE": "NO", "COLUMN_DEFAULT": None, "CHARACTER_OCTET_LENGTH": None, "CHARACTER_MAXIMUM_LENGTH": None, "NUMERIC_PRECISION": None, "NUMERIC_SCALE": None, "DATETIME_PRECISION": None, "UDT_NAME": "bool", "ATTNDIMS": 0, "ENUM_VALUES": None}
s = PostgresqlConverter().to_recap([col("a"), col("A")])
assert [f.extra_attrs["name"] for f in s.fields] == ["a", "A"], s
''', "two columns whose names differ in case only", "the second one is lost")

seed("S64", "C20", {"recap/settings.py": [("""                    split_url.path.rstrip("/"),
                    split_url.query,
                    split_url.fragment,
""", """                    split_url.path.rstrip("/"),
                    "" if split_url.password else split_url.query,
                    split_url.fragment,
""")]}, H + '''
from recap.settings import RecapSettings
s = RecapSettings(urls=["mysql://u:p@h/db?a=1"])
assert s.safe_urls == ["mysql://h/db?a=1"], s.safe_urls
''', "a configured URL with both a password and a query", "the query is lost")

seed("S65", "C24", {"recap/storage/registry.py": [("""                unquote_plus(file_path[len(self.root_path) + 1 :])
""", """                unquote_plus(Path(file_path).stem)
""")]}, H + '''
import tempfile
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    s = RegistryStorage("file://" + d)
    s.put("a.b", BoolType())
    assert s.ls() == ["a.b"], s.ls()
''', "a name with a dot", "the listing loses what follows the last dot")

seed("S66", "C06", {T: [("""            "default": extra_attrs.pop("default", None),
""", """            "default": extra_attrs.pop("default", None) or None,
""")]}, H + '''
u = IntType(8, default=0).make_nullable()
assert u.extra_attrs["default"] == 0, u
''', "a default of 0, false or the empty text", "the default is lost")

seed("S67", "C02", {T: [("""        case EnumType(symbols=symbols):
            type_dict["symbols"] = symbols
        case UnionType(types=types):""", """        case EnumType(symbols=symbols):
            symbols.sort(key=len)
            type_dict["symbols"] = symbols
        case UnionType(types=types):""")]}, H + '''
t = EnumType(["BB", "A"])
to_dict(t)
assert t.symbols == ["BB", "A"]
''', "an enum whose symbols are not ordered by length", "writing the enum reorders the symbols of the schema it is given")

seed("S68", "C03", {T: [("""    def validate(self) -> None:
        self.keys.validate()
        self.values.validate()
""", """    def validate(self) -> None:
        self.values.validate()
""")]}, H + '''
m = MapType(StringType(0), BoolType())
try:
    m.validate()
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "a map with an invalid key type", "validating it accepts it")
