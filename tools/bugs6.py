import sys; sys.path.insert(0, "/verif")
from tools.seed import seed as _seed
only = set(sys.argv[1:])
def seed(id, *a, **k):
    if not only or id in only:
        _seed(id, *a, **k)
        sys.stdout.flush()
T = "recap/types.py"
AV = "recap/converters/avro.py"
JS = "recap/converters/json_schema.py"
PB = "recap/converters/protobuf.py"
RG = "recap/storage/registry.py"
SV = "recap/server/registry.py"
H = "from recap.types import *\n"
TMP = "import tempfile, os, sys\nd = tempfile.mkdtemp()\nos.environ['RECAP_HOME'] = d + '/home'\n"

seed("S130", "C09", {AV: [("""                if "." not in type_alias:
                    type_alias = f"{namespace}.{type_alias}"
""", """                if "." not in type_alias:
                    root_alias = f"_root.{type_alias}"
                    if root_alias in self.registry._type_registry:
                        type_alias = root_alias
                    else:
                        type_alias = f"{namespace}.{type_alias}"
""")]}, H + '''
import json
from recap.converters.avro import AvroConverter
s = AvroConverter().to_recap(json.dumps({"type": "record", "name": "R", "fields": [
    {"name": "a", "type": {"type": "enum", "name": "E", "symbols": ["X"]}},
    {"name": "b", "type": {"type": "record", "name": "N", "namespace": "n", "fields": [
        {"name": "c", "type": {"type": "enum", "name": "E", "symbols": ["Y"]}},
        {"name": "d", "type": "E"}]}}]}))
assert s.fields[1].fields[1].resolve().symbols == ["Y"], s
''', "a type without namespace and a namespaced type of the same name", "the reference names the other type")

seed("S131", "C13", {PB: [("""                    alias = f"{self.namespaces[-1]}.{name}"
                return ProxyType""", """                    alias = f"{self.namespaces[-1]}.{name}"
                    if alias not in self.registry._type_registry:
                        # Types of files that were read earlier
                        for known in self.registry._type_registry:
                            if known.endswith(f".{name}"):
                                alias = known
                return ProxyType""")]}, H + '''
from recap.converters.protobuf import ProtobufConverter
c = ProtobufConverter()
c.to_recap('syntax = "proto3"; package a; message X { string s = 1; }')
s = c.to_recap('syntax = "proto3"; package b; message A { X x = 1; } message X { bool t = 1; }')
assert s.fields[0].types[1].alias == "b.X", s
''', "two files read by one converter that define messages of the same name, referred to before the definition", "the field has the type of the other package")

seed("S133", "C08", {AV: [("""                precision = len(str(2 ** (bits - (1 if signed else 0)))) - 1
""", """                # log10(2) is about 0.30103
                precision = (bits - (1 if signed else 0)) * 30103 // 100000
""")]}, H + '''
from recap.converters.avro import AvroConverter
import sys; sys.set_int_max_str_digits(0)
for b in (65, 128, 256, 1024, 13301, 13302):
    p = AvroConverter().from_recap(IntType(b, signed=False))["precision"]
    assert 10 ** p <= 2 ** b < 10 ** (p + 1), (b, p)
''', "an integer of 13301 bits or some wider ones", "the precision is one too large")

seed("S141", "C26", {SV: [("""    if storage.get(name, version):
        raise HTTPException(
            status_code=409,""", """    if (storage.latest(name) or 0) >= version:
        raise HTTPException(
            status_code=409,""")]}, TMP + '''
os.environ["RECAP_REGISTRY_STORAGE_URL"] = "file://" + d + "/s"
from fastapi.testclient import TestClient
from recap.server.app import app
c = TestClient(app)
h = {"content-type": "application/x-recap+json"}
assert c.put("/registry/n/versions/5", content='"bool"', headers=h).status_code == 200
assert c.put("/registry/n/versions/3", content='"bool"', headers=h).status_code == 200
''', "a PUT of a free version below the latest", "it is refused")

seed("S143", "C24", {RG: [("""        quoted_name = quote_plus(name)
""", """        # File names are limited to 255 bytes
        quoted_name = quote_plus(name)[:255]
""")]}, TMP + H + '''
from recap.storage.registry import RegistryStorage
s = RegistryStorage("memory://s143")
a, b = "n" * 300 + "a", "n" * 300 + "b"
s.put(a, BoolType())
assert s.get(b) is None and s.ls() == [a], s.ls()
''', "names longer than 255 characters that begin alike, on a store without that limit", "they share versions")

seed("S150", "C04", {T: [("""        return super().__eq__(other) and self.fields == other.fields
""", """        return super().__eq__(other) and all(
            a == b for a, b in zip(self.fields, other.fields)
        )
""")]}, H + '''
assert StructType([BoolType(name="a")]) != StructType([BoolType(name="a"), BoolType(name="b")])
''', "a struct that begins like another one", "they compare equal")

seed("S153", "C15", {"recap/converters/dbapi.py": [("""                base_type.extra_attrs["default"] = column["COLUMN_DEFAULT"]
""", """                default = column["COLUMN_DEFAULT"]
                if isinstance(default, str) and default.upper() == "NULL":
                    default = None
                base_type.extra_attrs["default"] = default
""")]}, H + '''
from recap.converters.mysql import MysqlConverter
c = dict(COLUMN_NAME="c", DATA_TYPE="varchar", IS_NULLABLE="NO", COLUMN_DEFAULT="null", CHARACTER_OCTET_LENGTH=9, NUMERIC_PRECISION=None, NUMERIC_SCALE=None, COLUMN_TYPE="varchar(9)")
assert MysqlConverter().to_recap([c]).fields[0].extra_attrs["default"] == "null"
''', "a text column whose default is the word null", "the default is lost")

seed("S155", "C17", {"recap/clients/sqlite.py": [("""WHERE type='table' AND name=?", (table,)""", """WHERE type='table' AND name LIKE ?", (table,)""")]}, H + '''
import sqlite3
from recap.clients.sqlite import SQLiteClient
c = sqlite3.connect(":memory:")
c.execute("CREATE TABLE axb (a INTEGER)")
try:
    print(SQLiteClient(c).schema("a_b"))
except ValueError:
    pass
else:
    raise SystemExit(1)
''', "the name of a table that does not exist contains _ or % and fits the name of another", "an empty schema is returned")

seed("S167", "C07", {T: [("""        if type_dict["type"] != "union":
            # Like name and default, doc describes the union
            doc = type_dict.pop("doc", None)
""", """        if type_dict["type"] != "union":
            # Like name and default, doc describes the union
            doc = type_dict.pop("doc", None) or None
""")]}, H + '''
t = from_dict({"type": "bool", "optional": True, "doc": ""})
assert t.doc == "", t
''', "an optional type with an empty documentation", "it becomes none")


