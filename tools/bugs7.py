import sys; sys.path.insert(0, "/verif")
from tools.seed import seed as _seed
only = set(sys.argv[1:])
def seed(id, *a, **k):
    if not only or id in only:
        _seed(id, *a, **k)
        sys.stdout.flush()
T = "recap/types.py"
RG = "recap/storage/registry.py"
CM = "recap/commands.py"
CL = "recap/clients/__init__.py"
H = "from recap.types import *\n"
TMP = "import tempfile, os, sys\nd = tempfile.mkdtemp()\nos.environ['RECAP_HOME'] = d + '/home'\n"

seed("S170", "C23", {RG: [("""        self.fs.mkdirs(self.root_path, exist_ok=True)

    def ls""", """        self.fs.mkdirs(self.root_path, exist_ok=True)
        self.known_versions = {}

    def ls"""), ("""        versions = self.versions(name)
        if not versions:
            return None
        return max(versions)
""", """        versions = self.known_versions.get(name) or self.versions(name)
        if not versions:
            return None
        self.known_versions[name] = versions
        return max(versions)
"""), ("""                f.write(type_json)

        return version
""", """                f.write(type_json)

        if name in self.known_versions:
            self.known_versions[name].append(version)

        return version
""")]}, TMP + H + '''
from recap.storage.registry import RegistryStorage
a, b = RegistryStorage("file://" + d + "/s"), RegistryStorage("file://" + d + "/s")
assert a.put("n", BoolType()) == 1 and a.put("n", BoolType()) == 2
assert b.put("n", StringType()) == 3
assert a.put("n", BytesType()) == 4, a.versions("n")
''', "two open storages of one directory that put the same name in turn", "a stored version is overwritten")

seed("S172", "C29", {CM: [("""settings = RecapSettings()

""", """settings = RecapSettings()
converters = {}

"""), ("""                output_obj = AvroConverter().from_recap(recap_struct)
""", """                converter = converters.setdefault(strict, AvroConverter())
                output_obj = converter.from_recap(recap_struct)
"""), ("""                output_obj = JSONSchemaConverter().from_recap(recap_struct)
""", """                converter = converters.setdefault(strict, JSONSchemaConverter())
                output_obj = converter.from_recap(recap_struct)
""")]}, TMP + '''
import sqlite3
from recap.commands import schema, SchemaFormat as F
sqlite3.connect(d + "/x.db").execute("CREATE TABLE t (a TEXT)")
u = "sqlite:///" + d + "/x.db/t"
j = schema(u, F.json, strict=False)
a = schema(u, F.avro, strict=False)
assert a["type"] == "record", a
assert schema(u, F.json, strict=False) == j
''', "two requests for different formats in one process", "the second one is answered in the format of the first")

seed("S173", "C29", {CM: [("""    connection_url, method_args = parse_url("schema", url, strict)
    with create_client(connection_url) as client:
        recap_struct = client.schema(*method_args)
""", """    connection_url, method_args = parse_url("schema", url, strict)
    with create_client(connection_url) as client:
        key = (connection_url, *method_args[-1:])
        if key not in structs:
            structs[key] = client.schema(*method_args)
        recap_struct = structs.pop(key) if format == SchemaFormat.recap else structs[key]
"""), ("""settings = RecapSettings()

""", """settings = RecapSettings()
# The last schemas that were read
structs: dict = {}

""")]}, TMP + '''
import sqlite3
from recap.commands import schema, SchemaFormat as F
c = sqlite3.connect(d + "/x.db")
c.execute("CREATE TABLE t (a TEXT)")
u = "sqlite:///" + d + "/x.db/t"
schema(u, F.json, strict=False)
c.execute("ALTER TABLE t ADD COLUMN b TEXT"); c.commit()
assert list(schema(u, F.json, strict=False)["properties"]) == ["a", "b"]
''', "a table that changes between two requests for formats other than Recap's", "the second answer is stale")

seed("S174", "C22", {CL: [("""settings = RecapSettings()
CLIENTS""", """settings = RecapSettings()
# Parsed URLs by their server and path
parsed_urls: dict = {}
CLIENTS"""), ("""        return (settings.unsafe_url(connection_url, strict), method_args)
""", """        key = (connection_url.partition("?")[0], strict)
        if key not in parsed_urls:
            parsed_urls[key] = settings.unsafe_url(connection_url, strict)
        return (parsed_urls[key], method_args)
""")]}, TMP + '''
from recap.clients import parse_url
a = parse_url("schema", "mysql://h/db/t?connect_timeout=1", strict=False)
b = parse_url("schema", "mysql://h/db/t?connect_timeout=2", strict=False)
assert a != b, (a, b)
''', "two URLs in one process that differ in their query only", "the second connection has the options of the first")

seed("S176", "C18", {"recap/converters/bigquery.py": [("""class BigQueryConverter:
    def to_recap(self, fields: list[bigquery.SchemaField]) -> StructType:
        recap_fields = []
""", """class BigQueryConverter:
    def to_recap(
        self, fields: list[bigquery.SchemaField], recap_fields: list = []
    ) -> StructType:
        recap_fields.clear()
"""), ("""field_type = self.to_recap(list(field.fields))""", """field_type = self.to_recap(list(field.fields), [])""")]}, H + '''
from google.cloud.bigquery import SchemaField as F
from recap.converters.bigquery import BigQueryConverter
a = BigQueryConverter().to_recap([F("a", "INT64")])
b = BigQueryConverter().to_recap([F("b", "INT64"), F("c", "INT64")])
assert len(a.fields) == 1, a
''', "a table read before another one", "the schema of the first table turns into that of the second")

seed("S177", "C14", {"recap/converters/hive_metastore.py": [("""    def to_recap(
        self,
        table: HTable,
    ) -> StructType:
        fields: list[RecapType] = []
        for col in table.columns:
            recap_type = self._parse_schema(col)
            fields.append(recap_type)
""", """    def __init__(self):
        self.parsed: dict[str, RecapType] = {}

    def to_recap(
        self,
        table: HTable,
    ) -> StructType:
        fields: list[RecapType] = []
        for col in table.columns:
            # Columns of the same name and type look the same in every table
            key = f"{col.name} {col.type}"
            if key not in self.parsed:
                self.parsed[key] = self._parse_schema(col)
            fields.append(self.parsed[key])
""")]}, H + '''
from pymetastore.htypes import *
from pymetastore.metastore import HColumn, HTable
from recap.converters.hive_metastore import HiveMetastoreConverter
import inspect
def tab(n, comment):
    args = {p: None for p in inspect.signature(HTable).parameters}
    return HTable(**dict(args, database_name="d", name=n, columns=[HColumn(name="c", type=HPrimitiveType(PrimitiveCategory.INT), comment=comment)], partition_columns=[], parameters={}, table_type="MANAGED_TABLE"))
c = HiveMetastoreConverter()
a = c.to_recap(tab("a", "first"))
b = c.to_recap(tab("b", "second"))
assert b.fields[0].doc == "second", b
''', "two tables read by one converter with columns that differ in their comment only", "the second table has the comments of the first")

seed("S180", "C11", {"recap/converters/json_schema.py": [("""                        if not isinstance(field, UnionType) or not field.is_optional:
                            type_dict.setdefault("required", []).append(field_name)
""", """                        if not isinstance(field, UnionType) or not field.is_optional:
                            required = type_dict["properties"].get("required")
                            if required is None:
                                required = type_dict.setdefault("required", [])
                            if isinstance(required, list):
                                required.append(field_name)
""")]}, H + '''
from recap.converters.json_schema import JSONSchemaConverter
s = JSONSchemaConverter().from_recap(StructType([BoolType(name="required"), BoolType(name="b")]))
assert s["required"] == ["required", "b"], s
''', "a field that is named required", "it and the fields after it are not required")

