import sys; sys.path.insert(0, "/verif")
from tools.seed import seed as _seed
only = set(sys.argv[1:])
def seed(id, *a, **k):
    if not only or id in only:
        _seed(id, *a, **k)
        sys.stdout.flush()
T = "recap/types.py"
AV = "recap/converters/avro.py"
JS = "recap/converters/json_schema.py"
PB = "recap/converters/protobuf.py"
H = "from recap.types import *\n"

seed("S70", "C09", {AV: [("""                fields = [
                    self._parse(field, namespace)
                    for field in avro_schema.get("fields", [])
                ]
""", """                fields = []
                for field in avro_schema.get("fields", []):
                    if isinstance(field.get("type"), dict):
                        namespace = field["type"].get("namespace", namespace)
                    fields.append(self._parse(field, namespace))
""")]}, H + '''
import json
from recap.converters.avro import AvroConverter
r = AvroConverter().to_recap(json.dumps({"type": "record", "name": "R", "namespace": "a", "fields": [
  {"name": "x", "type": {"type": "enum", "name": "E", "namespace": "b", "symbols": ["A"]}},
  {"name": "y", "type": {"type": "enum", "name": "F", "symbols": ["A"]}}]}))
assert r.fields[1].alias == "a.F", r
''', "a field whose type has its own namespace, followed by a field with a named type", "the namespace leaks into the following fields")

seed("S71", "C11", {JS: [("""                        if not isinstance(field, UnionType) or not field.is_optional:
""", """                        if not field.is_nullable():
""")]}, H + '''
from recap.converters.json_schema import JSONSchemaConverter
r = JSONSchemaConverter().from_recap(StructType([UnionType([NullType(), BoolType()], name="a")]))
assert r.get("required") == ["a"], r
''', "a nullable field without a default", "the property is no longer required")

seed("S72", "C14", {"recap/clients/hive_metastore.py": [("""            if isinstance(col_stats.stats, TypeStats):
                recap_type.extra_attrs["null_count"] = col_stats.stats.numNulls
""", """            if isinstance(col_stats.stats, TypeStats) and col_stats.stats.numNulls:
                recap_type.extra_attrs["null_count"] = col_stats.stats.numNulls
""")]}, H + '''
from types import SimpleNamespace as N
from pymetastore.stats import LongTypeStats
from recap.clients.hive_metastore import HiveMetastoreClient
c = HiveMetastoreClient(N(get_table_stats=lambda t, c: [N(columnName="a", stats=LongTypeStats(cardinality=1, numNulls=0, lowValue=1, highValue=2))]))
f = IntType(64, name="a")
c._load_stats(None, [f])
assert f.extra_attrs.get("null_count") == 0, f
''', "a column without null values", "its number of nulls is missing")

seed("S73", "C14", {"recap/clients/hive_metastore.py": [("""        fields_dict = {f.extra_attrs["name"]: f for f in fields}
        table_stats = self.client.get_table_stats(table, [])
        table_stats = [cs for cs in table_stats if cs.stats is not None]
        for col_stats in table_stats:
            recap_type = fields_dict[col_stats.columnName]
""", """        table_stats = self.client.get_table_stats(table, [])
        table_stats = [cs for cs in table_stats if cs.stats is not None]
        for recap_type, col_stats in zip(fields, table_stats):
""")]}, H + '''
from types import SimpleNamespace as N
from pymetastore.stats import LongTypeStats
from recap.clients.hive_metastore import HiveMetastoreClient
c = HiveMetastoreClient(N(get_table_stats=lambda t, c: [N(columnName="b", stats=LongTypeStats(cardinality=1, numNulls=0, lowValue=1, highValue=2))]))
a, b = IntType(64, name="a"), IntType(64, name="b")
c._load_stats(None, [a, b])
assert "low" in b.extra_attrs and "low" not in a.extra_attrs, (a, b)
''', "a column without statistics before one that has them", "the statistics are attached to the wrong column")

seed("S74", "C16", {"recap/converters/snowflake.py": [("""            or data_type.startswith("char varying")
            or data_type.startswith("nchar varying")
""", """            or data_type.startswith("nchar varying")
""")]}, H + '''
from recap.converters.snowflake import SnowflakeConverter
r = SnowflakeConverter()._parse_type({"DATA_TYPE": "CHAR VARYING", "CHARACTER_OCTET_LENGTH": None})
assert r.bytes_ == 16_777_216, r
''', "a CHAR VARYING column whose length is not given", "it is read as one byte long")

seed("S75", "C17", {"recap/converters/sqlite.py": [("""precision <= 23""", """precision < 23""")]}, H + '''
import sqlite3
from recap.clients.sqlite import SQLiteClient
c = sqlite3.connect(":memory:")
c.execute("create table t (f float(23) not null)")
assert SQLiteClient(c).schema("t").fields[0].bits == 32
''', "a float column of precision 23", "it is read as 64 bits wide")

seed("S76", "C18", {"recap/converters/bigquery.py": [("""                case "RECORD" | "STRUCT":
                    field_type = self.to_recap(list(field.fields))
""", """                case "RECORD" | "STRUCT":
                    if field.mode == "REPEATED":
                        nested_fields = [f for f in field.fields if f.mode != "REPEATED"]
                    else:
                        nested_fields = list(field.fields)
                    field_type = self.to_recap(nested_fields)
""")]}, H + '''
from google.cloud.bigquery import SchemaField as F
from recap.converters.bigquery import BigQueryConverter
s = BigQueryConverter().to_recap([F("a", "RECORD", mode="REPEATED", fields=[F("x", "INT64"), F("y", "INT64", mode="REPEATED")])])
assert len(s.fields[0].values.fields) == 2, s
''', "a repeated field within a repeated record", "the nested field is dropped")

seed("S77", "C20", {"recap/settings.py": [("""            if split_url.username or split_url.password:
""", """            if split_url.password:
""")]}, H + '''
from recap.settings import RecapSettings
s = RecapSettings(urls=["mysql://token@h/db"]).safe_urls
assert "token" not in s[0], s
''', "a configured URL with a user but no password", "the user is listed")

seed("S78", "C21", {"recap/settings.py": [("""                and unsafe_url_split.hostname == url_split.hostname
""", """                and (url_split.hostname or "").endswith(unsafe_url_split.hostname or "")
""")]}, H + '''
from recap.settings import RecapSettings
s = RecapSettings(urls=["mysql://u:p@db.com/x"])
try:
    r = s.unsafe_url("mysql://evildb.com/x")
except ValueError:
    raise SystemExit(0)
assert "p@" not in r, r
''', "a requested host whose name ends in a configured one", "the request gets the configured server's credentials")

seed("S79", "C22", {"recap/clients/snowflake.py": [("""connect(**(url_args | snowflake_args))""", """connect(**(snowflake_args | url_args))""")]}, H + '''
import snowflake.connector
from contextlib import contextmanager
got = {}
@contextmanager
def connect(**kw):
    got.update(kw)
    yield None
snowflake.connector.connect = connect
from recap.clients import create_client
with create_client("snowflake://u:p@acc/db?database=other"):
    pass
assert got["database"] == "db", got
''', "a Snowflake URL with a database in its path and in its query", "the query replaces the database of the path")

seed("S80", "C23", {"recap/storage/registry.py": [("""            version = (self.latest(name) or 0) + 1
""", """            version = len(self.versions(name) or []) + 1
""")]}, H + '''
import tempfile
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    s = RegistryStorage("file://" + d)
    s.put("a", BoolType(), 2)
    assert s.put("a", NullType()) == 3
    assert s.get("a", 2) == (BoolType(), 2), s.get("a", 2)
''', "a put after a put with a given version that left a gap", "the next version overwrites an existing one")

seed("S81", "C24", {"recap/storage/registry.py": [("""        quoted_name = quote_plus(name)
""", """        quoted_name = quote_plus(name, safe="+")
""")]}, H + '''
import tempfile
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    s = RegistryStorage("file://" + d)
    s.put("a+b", BoolType())
    assert s.get("a b") is None and s.ls() == ["a+b"], s.ls()
''', "a name with a plus sign", "it collides with the name that has a space instead")

seed("S82", "C26", {"recap/server/registry.py": [("""type_bytes.decode("utf-8")""", """type_bytes.decode("utf-8", errors="ignore")""")]}, H + '''
import tempfile
from fastapi.testclient import TestClient
from recap.server.app import app
from recap.server.registry import get_storage
from recap.storage.registry import RegistryStorage
with tempfile.TemporaryDirectory() as d:
    app.dependency_overrides[get_storage] = lambda: RegistryStorage("file://" + d)
    r = TestClient(app).post("/registry/a", content=b"\\xffbool", headers={"content-type": "application/x-recap+json"})
    assert r.status_code == 400, r
''', "a body that is no valid UTF-8", "it is stored instead of being refused")

seed("S83", "C27", {"recap/clients/dbapi.py": [("""                WHERE table_catalog = {self.param_style}
                    AND table_schema = {self.param_style}
            \"\"\",
            (catalog, schema),
""", """                WHERE table_schema = {self.param_style}
            \"\"\",
            (schema,),
""")]}, H + '''
import sqlite3
from recap.clients.dbapi import DbapiClient
class C(DbapiClient):
    param_style = "?"
c = sqlite3.connect(":memory:")
c.execute("attach ':memory:' as information_schema")
c.execute("create table information_schema.tables (table_catalog text, table_schema text, table_name text)")
c.executemany("insert into information_schema.tables values (?,?,?)", [("a", "s", "t1"), ("b", "s", "t2")])
r = C(c, None).ls("a", "s")
assert r == ["t1"], r
''', "a schema name that two catalogs have", "the tables of both are listed")

seed("S84", "C28", {"recap/clients/confluent_registry.py": [("""        has_kv = subject.endswith("-key") or subject.endswith("-value")
""", """        has_kv = "-key" in subject or "-value" in subject
""")]}, H + '''
from types import SimpleNamespace as N
from recap.clients.confluent_registry import ConfluentRegistryClient
got = []
def get(s):
    got.append(s)
    return N(schema=N(schema_type="JSON", schema_str='{"type": "object", "properties": {}}'))
ConfluentRegistryClient(N(get_latest_version=get)).schema("user-keys")
assert got == ["user-keys-value"], got
''', "a topic whose name contains -key or -value before its end", "the wrong subject is read")

seed("S85", "C29", {"recap/commands.py": [("""        return settings.safe_urls
""", """        return settings.safe_urls or None
""")]}, H + '''
import os
os.environ.pop("RECAP_URLS", None)
from fastapi.testclient import TestClient
from recap.server.app import app
r = TestClient(app).get("/gateway/ls/")
assert r.status_code == 200 and r.json() == [], (r, r.text)
''', "listing the configured URLs when there are none", "the gateway answers 404")

seed("S86", "C06", {T: [("""        attrs = {k: v for k, v in attrs.items() if not k.startswith("_")}
""", """        attrs = {k: v for k, v in attrs.items() if v and not k.startswith("_")}
""")]}, H + '''
assert IntType(8, signed=False).make_nullable().types[1].signed is False
''', "a type with a false attribute, for example an unsigned integer", "the nullable type gets the attribute's default")

seed("S88", "C03", {T: [("""        self.keys.validate()
        self.values.validate()
""", """        self.values.validate()
""")]}, H + '''
try:
    MapType(StringType(0), BoolType()).validate()
except ValueError:
    raise SystemExit(0)
raise SystemExit("accepted")
''', "a map whose key type has an invalid size", "validate accepts it")

seed("S89", "C04", {T: [("""        return super().__eq__(other) and self.fields == other.fields
""", """        return super().__eq__(other) and all(
            field == other_field
            for field, other_field in zip(self.fields, other.fields)
        )
""")]}, H + '''
assert StructType([BoolType(name="a")]) != StructType([BoolType(name="a"), BoolType(name="b")])
''', "two structs of which one begins with the fields of the other", "they compare equal")

seed("S90", "C10", {JS: [("""                    if name not in json_schema.get("required", []):
""", """                    if name not in " ".join(json_schema.get("required", [])):
""")]}, H + '''
import json
from recap.converters.json_schema import JSONSchemaConverter
s = JSONSchemaConverter().to_recap(json.dumps({"type": "object", "required": ["idx"], "properties": {"id": {"type": "string"}, "idx": {"type": "string"}}}))
assert isinstance(s.fields[0], UnionType), s
''', "a property whose name is part of a required one's", "it is read as required")

seed("S91", "C13", {PB: [("""            case "sfixed64":
                return IntType(bits=64)
""", """            case "sfixed64":
                return IntType(bits=64, signed=False)
""")]}, H + '''
from recap.converters.protobuf import ProtobufConverter
s = ProtobufConverter().to_recap('syntax = "proto3"; package p; message A { sfixed64 a = 1; }')
assert s.fields[0].types[1].signed, s
''', "a field of type sfixed64", "it is read as unsigned")
