"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand
after editing; no check runs it)."""

import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TY = "recap/types.py"


def P(id, title, statement, text, why, files, mech, over=("inputs",), observe=(), state=None, note=""):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None},
    }
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    if state:
        d["anchors"]["state"] = state
    d["_note"] = note
    assert len(title) <= 80, title
    return d


PROPS = [
    P(
        "C01",
        "Schemas survive their dictionary form unchanged",
        "Converting any schema to its dictionary form and back yields the same schema, attribute for attribute, whether or not the dictionary is cleaned and whether or not aliases are substituted, and also through the JSON text of that dictionary. Cleaning a dictionary form never changes which schema it denotes, and neither does cleaning it again.",
        "every type tree, attribute combination, size value and clean/alias setting",
        "the tests convert a handful of literal trees, mostly one attribute at a time; nullability sugar, default None vs. absent, built-in aliases and nesting interact",
        [TY],
        [("dictionary writer", "types.py to_dict"), ("cleaner", "types.py clean_dict"), ("alias substitution", "types.py alias_dict"), ("reader", "types.py from_dict")],
        observe=["types.to_dict", "types.from_dict", "types.clean_dict"],
    ),
    P(
        "C02",
        "Conversions never modify their inputs and are repeatable",
        "Converting a schema to or from its dictionary form, cleaning or aliasing a dictionary, making a schema nullable, and converting a schema to another format never change the schema or dictionary they were given or anything produced earlier. Repeating the same operation on the same input gives the same result.",
        "every type tree and every sequence of two operations on it",
        "a test compares results, not the inputs afterwards; mutation shows only for particular nestings and when the same object is used again",
        [TY, "recap/converters/avro.py", "recap/converters/json_schema.py", "recap/converters/protobuf.py"],
        [("copying before change", "types.py clean_dict/alias_dict/from_dict/make_nullable")],
        over=("inputs", "histories"),
    ),
    P(
        "C03",
        "Sizes outside the specified limits are rejected, all others accepted",
        "Reading a schema accepts integer and float widths from 1 to 2^31-1 bits and string, bytes and list lengths from 1 to 2^63-1, an absent length only for variable-length types, and rejects every other width or length. This holds wherever in the schema the type occurs: list values, map keys and values, struct fields, union members, type lists and optional types.",
        "every size value and every position of the sized type in the tree",
        "the limits are 64-bit quantities in arbitrarily nested positions; the tests try a few boundary values at the top level",
        [TY],
        [("validators", "types.py RecapType.validate and subclasses")],
        observe=["types.from_dict"],
    ),
    P(
        "C04",
        "Two schemas are equal exactly when all they describe is equal",
        "Two schemas compare equal if and only if they have the same kind, sizes, signedness, logical type, alias, documentation, extra attributes and nested types in the same order. In particular equality is symmetric, and schemas of different kinds or with any differing attribute are never equal.",
        "every pair of type trees",
        "pairs are quadratic in the trees; the tests compare results with literal expected values",
        [TY],
        [("equality", "types.py __eq__ methods")],
        observe=["== on types"],
    ),
    P(
        "C05",
        "Alias names are checked, unique and resolve to what they name",
        "An alias is accepted exactly if it is a dotted name of at least two identifiers (ASCII letters, digits, underscore, not starting with a digit) and is not already defined; resolving an unknown alias fails. A reference resolves to a copy of the aliased type on which exactly the attributes given with the reference override the definition, and the built-in aliases denote their documented types.",
        "every alias name, pair of definitions, position of definition and reference, and override",
        "names are arbitrary strings and definitions can be nested anywhere; the tests try a few names at the top level",
        [TY],
        [("alias registry", "types.py RecapTypeRegistry"), ("reference", "types.py ProxyType.resolve")],
        observe=["types.from_dict", "ProxyType.resolve"],
    ),
    P(
        "C06",
        "Making a schema nullable keeps everything it says",
        "Making any schema nullable yields a union that contains null, added in front only if it was missing, defaults to null unless a default was given, and keeps name, default, documentation, alias and every member of the original; doing it twice is doing it once. A union reports being optional exactly when it consists of null and one other type and has a default, and a schema reports being nullable exactly when it is null or a union with a null member.",
        "every type tree and attribute combination",
        "the tests try a few types with one attribute; unions with and without null, defaults and names interact",
        [TY],
        [("nullability", "types.py make_nullable, is_nullable, is_optional")],
        observe=["make_nullable", "is_optional"],
    ),
    P(
        "C07",
        "Shorthand spellings mean the same as the long form",
        "A schema written with shorthands (a bare type name, a list of types, a list as the type, an optional flag, an alias name as type) reads as exactly the schema its long form reads as: a list is a union of its members in order with none lost, and the optional flag yields a union of null and the type whose default is null unless given. A dictionary lacking an attribute its type requires is rejected.",
        "every combination of shorthand forms, members and attributes",
        "forms combine and nest; the tests try them one by one",
        [TY],
        [("reader", "types.py from_dict")],
        observe=["types.from_dict"],
    ),
    P(
        "C08",
        "Avro schemas written from Recap describe the same data",
        "Writing a schema as Avro gives the smallest Avro type that can hold the described values: integers up to 32 bits as int, wider ones as long or decimal, floats as float or double, times, dates, decimals and uuids with the logical type of their unit and width, structs, lists, maps, enums and unions member for member with names, documentation and defaults kept. A schema that Avro cannot express is rejected rather than written lossily.",
        "every type tree, width, unit, logical type and attribute combination",
        "the mapping splits on width, signedness, unit, logical name and variable flag; the tests pick one value per row",
        ["recap/converters/avro.py", TY],
        [("writer", "converters/avro.py from_recap")],
        observe=["AvroConverter.from_recap"],
    ),
    P(
        "C09",
        "Avro schemas are read field for field, with references resolved",
        "Reading an Avro record gives a struct with one field per Avro field, in order, with its name, documentation and default, of the type (primitive, logical, enum, fixed, array, map, union, nested record) that Avro declares; named types are known by their full name, with the enclosing namespace inherited, and later references resolve to them. Schemas made of types both formats share survive reading and writing back, and invalid Avro is rejected.",
        "every record schema within the bounds, with every way of giving namespaces",
        "namespaces, references and nesting combine; the tests use literal schemas",
        ["recap/converters/avro.py"],
        [("reader", "converters/avro.py to_recap")],
        observe=["AvroConverter.to_recap"],
    ),
    P(
        "C10",
        "JSON schemas are read property for property",
        "Reading a JSON schema object gives a struct with one field per property, in order, with its name, documentation and default, nullable with default null exactly when it is not required, of the type and format the schema declares, at every nesting depth; a list of types is a union. A schema's identifier becomes its alias, by the caller's strategy or from its URL, and references to it resolve; unknown types are rejected.",
        "every object schema within the bounds and every subset of required properties",
        "required subsets, defaults and nesting combine; the tests use literal schemas",
        ["recap/converters/json_schema.py"],
        [("reader", "converters/json_schema.py to_recap")],
        observe=["JSONSchemaConverter.to_recap"],
    ),
    P(
        "C11",
        "JSON schemas written from Recap describe the same data",
        "Writing a schema as JSON schema gives one property per field, in order and under its name, and lists as required exactly the fields that are not optional (optional: a union of null and one other type that has a default). It keeps documentation and defaults, gives every type, at any depth, its JSON type (bytes as string with format byte, enums as strings with their symbols, lists and maps with the type of their values, other unions as oneOf), and puts every aliased type outside map keys into the definitions so that every reference in the document resolves within it. A struct field without a name is rejected.",
        "every type tree, attribute combination and position of definitions and references",
        "references, optionality and nesting combine; the tests use literal types",
        ["recap/converters/json_schema.py"],
        [("writer", "converters/json_schema.py from_recap")],
        observe=["JSONSchemaConverter.from_recap"],
    ),
    P(
        "C12",
        "Protobuf files written from Recap declare every field and type correctly",
        "Writing a struct as Protobuf declares every struct and enum of the schema exactly once under its own name and package, with one field per struct field in order, keeping names, giving each integer, float, string, bytes, list, map, enum, nullable field and union the Protobuf type, width and cardinality that holds its values. Field numbers are positive and unique within a message, members of a oneof included, and enum values are numbered from zero. A schema Protobuf cannot express (too wide numbers, nested lists, unsupported map keys, types with no place in the file) is rejected rather than written lossily.",
        "every struct within the bounds: field kinds, widths, names, nesting and placement of named types",
        "numbering, naming and cardinality depend on combinations of neighbouring fields and nesting; the tests write one field at a time",
        ["recap/converters/protobuf.py"],
        [("writer", "converters/protobuf.py from_recap")],
        observe=["ProtobufConverter.from_recap"],
    ),
    P(
        "C13",
        "Protobuf files are read field for field, with references resolved",
        "Reading a Protobuf file gives its first message as a struct with one field per Protobuf field in order, with its name, type and width, nullable with default null unless required; repeated fields are lists, map fields maps, oneofs unions of null and their members. Messages and enums are known by package and name, each is defined once in the result and every reference to them, short, qualified or rooted, forward, backward or cyclic, also from files read later by the same converter, resolves to its definition. What was read can be written and read back unchanged, and files without a message or with unknown types are rejected.",
        "every document within the bounds: references, cardinalities, packages, sequences of files",
        "references combine with order, cycles and packages; the tests read literal files",
        ["recap/converters/protobuf.py", TY],
        [("reader", "converters/protobuf.py to_recap")],
        over=("inputs", "histories"),
        observe=["ProtobufConverter.to_recap"],
    ),
    P(
        "C15",
        "Every column of a table becomes one field, in order",
        "Reading a table from PostgreSQL, MySQL, Snowflake or SQLite gives a struct with exactly one field per column, in column order, named like the column whatever characters the name contains. A field is a union with null exactly if the column is nullable; it carries the column's default if there is one (an explicit null default if the column is nullable and has none, no default otherwise). A column's type does not depend on the other columns or on tables converted before by the same converter, and the rows given are not modified.",
        "every list of columns, name, nullability, default and repetition",
        "depends on combinations of neighbouring columns, names, nullability and reuse of a converter; tests convert one literal row per type",
        ["recap/converters/dbapi.py", "recap/converters/postgresql.py", "recap/converters/mysql.py", "recap/converters/snowflake.py", "recap/converters/sqlite.py"],
        [("column loop", "converters/dbapi.py DbapiConverter.to_recap"), ("array aliases", "converters/postgresql.py _parse_type")],
        over=("inputs", "histories"),
        observe=["DbapiConverter.to_recap"],
    ),
    P(
        "C16",
        "PostgreSQL, MySQL and Snowflake types map to the documented Recap types",
        "Each supported PostgreSQL, MySQL and Snowflake column type, in any letter case, is read as its documented Recap type with the column's own size: integer width and sign (MySQL unsigned), float width (MySQL floats above 23 bits of precision are 64-bit), string and bytes length and whether it is variable (bit(n) takes ceil(n/8) bytes), decimal precision and scale, timestamp unit (precision 0 second, 1-3 millisecond, 4-6 microsecond, above nanosecond where supported), the documented default size where the catalog has none. PostgreSQL enums keep their values in order, and arrays are lists of their element type that refer to themselves for further dimensions, or nested lists of the declared dimensions if these are enforced. Unsupported types are rejected with a ValueError.",
        "every type name, letter case, length, precision, scale and array dimension",
        "lengths, precisions and names are unbounded; the tests check one or two values per type",
        ["recap/converters/dbapi.py", "recap/converters/postgresql.py", "recap/converters/mysql.py", "recap/converters/snowflake.py"],
        [("type tables", "converters/*.py _parse_type"), ("time units", "converters/dbapi.py _get_time_unit")],
        observe=["PostgresqlConverter.to_recap", "MysqlConverter.to_recap", "SnowflakeConverter.to_recap"],
    ),
    P(
        "C17",
        "SQLite tables are read by SQLite's type affinity rules",
        "For any table of an SQLite database, whatever characters its name contains, ls lists it and schema returns its own columns; a table that does not exist is rejected with a ValueError and its name is never executed as SQL. Column types follow SQLite's affinity rules for every declared type, in any letter case: INT gives a 64-bit integer; CHAR, CLOB and TEXT a string; BLOB or no type bytes; REAL, FLOA and DOUB a float; anything else the union of the storage classes; the type's first parameter is the length of strings and bytes and selects 32-bit floats up to 23. Columns that are NOT NULL or part of the primary key are not nullable.",
        "every declared type, parameter, spacing, table name and key/NOT NULL combination",
        "SQLite accepts any text as type and as table name; the tests use a few literal ones",
        ["recap/clients/sqlite.py", "recap/converters/sqlite.py"],
        [("affinity", "converters/sqlite.py get_affinity"), ("parameters", "clients/sqlite.py add_information_schema"), ("table lookup", "clients/sqlite.py schema, _table_exists, ls")],
        observe=["SQLiteClient.schema", "SQLiteClient.ls"],
        note="The database behind the cursor is a stub in symbolic runs; native validation uses SQLite itself.",
    ),
    P(
        "C27",
        "Catalog queries return exactly the named table and never run names as SQL",
        "Asking PostgreSQL, MySQL or Snowflake for the schema of a table returns the columns of that table only, once each and in ordinal order, even if tables of the same name exist in other schemas or catalogs, and PostgreSQL enum columns have the values of their own type in declared order; listing catalogs, schemas or tables returns exactly those of the named parent. Catalog, schema and table names reach the database only as bound parameters: the text of the statements does not depend on them.",
        "every database content, table name and requested name",
        "no database is available to unit tests; which rows a query selects depends on what else the catalog contains",
        ["recap/clients/dbapi.py", "recap/clients/postgresql.py", "recap/clients/mysql.py", "recap/clients/snowflake.py"],
        [("queries", "clients/dbapi.py ls_*/schema"), ("joins", "clients/postgresql.py schema")],
        over=("inputs", "histories"),
        observe=["DbapiClient.ls", "DbapiClient.schema"],
        note="The SQL text is evaluated by a small relational evaluator (props/minisql.py), not by a database server.",
    ),
    P(
        "C14",
        "Hive tables are read column for column with types and own statistics",
        "Reading a Hive Metastore table gives a struct named after the table with one field per column in order, named like the column, nullable with default null, with the column's comment. Each primitive type, in any nesting of array, map, struct and union, is read as its documented Recap type with its own length, precision and scale; unions are flattened into one union that contains null and each member once; statistics, if requested, are attached to the column they were collected for and to no other. Types Hive does not define a mapping for are rejected with a ValueError. ls returns exactly the metastore's databases or the tables of the named database.",
        "every type tree, column list, length and statistics result",
        "Hive types nest arbitrarily and statistics arrive per column in any order; the tests convert single literal types",
        ["recap/converters/hive_metastore.py", "recap/clients/hive_metastore.py"],
        [("types", "converters/hive_metastore.py _parse_schema"), ("statistics", "converters/hive_metastore.py _parse_stats, clients/hive_metastore.py schema"), ("listing", "clients/hive_metastore.py ls")],
        observe=["HiveMetastoreConverter.to_recap", "HiveMetastoreClient.schema", "HiveMetastoreClient.ls"],
        note="The metastore connection is a stub that returns the table objects of the pymetastore library.",
    ),
    P(
        "C18",
        "BigQuery tables are read field for field, with mode and nesting kept",
        "Reading a BigQuery table gives a struct with one field per BigQuery field in order, named and documented like it, at every nesting depth of RECORD fields: a REQUIRED field has the plain type, a NULLABLE one is a union with null, a REPEATED one a list of the type; the field's default is kept. Each type BigQuery reports has its documented width, unit and, for STRING, BYTES, NUMERIC and BIGNUMERIC, the field's own length, precision and scale. Unknown types are rejected with a ValueError. ls returns exactly the projects, the datasets of the named project or the tables of the named dataset, and takes the arguments the client parses from a URL.",
        "every field tree, mode, size and name",
        "no BigQuery service is available to unit tests; mode, nesting, default and size combine freely",
        ["recap/converters/bigquery.py", "recap/clients/bigquery.py"],
        [("fields", "converters/bigquery.py _parse_fields"), ("client", "clients/bigquery.py ls/schema/parse")],
        observe=["BigQueryConverter.to_recap", "BigQueryClient.ls", "BigQueryClient.schema"],
        note="The BigQuery service is a stub; schema fields are the real google.cloud.bigquery objects in native validation.",
    ),
    P(
        "C23",
        "The registry returns exactly what was stored, versions in order",
        "After any sequence of puts, the registry storage lists exactly the names that were stored, and for each name exactly its versions in ascending order, the numerically highest of which is the latest; reading a version, or the latest one, returns the type last stored there, also after reopening the storage and whatever order the file system lists its files in. A put without a version stores under the highest version plus one, starting at 1, a put with a version exactly there, and both return the version used. Names and versions never stored are reported as absent, on local and in-memory file systems alike.",
        "every history of puts, name, version and listing order",
        "the tests store a few versions under one literal name on one file system",
        ["recap/storage/registry.py"],
        [("storage", "storage/registry.py RegistryStorage.put/get/versions/latest/ls")],
        over=("inputs", "histories"),
        observe=["RegistryStorage methods"],
        state=[{"name": "versions", "meaning": "one file per stored version", "where": "<storage root>/<quoted name>/<version>.json"}],
    ),
    P(
        "C24",
        "Registry names never collide and never leave the storage root",
        "Any non-empty name, whatever characters it contains (slashes, dots, percent signs, spaces, plus signs, non-ASCII), can be stored and read back under exactly that name; ls returns the name as it was given. Two different names never share versions, and no operation reads, creates or changes anything outside the storage root.",
        "every name and every pair of names",
        "names are arbitrary text that becomes a path; the tests use identifiers",
        ["recap/storage/registry.py"],
        [("quoting", "storage/registry.py quote_plus/unquote_plus in put/get/versions/ls")],
        over=("inputs", "histories"),
        observe=["RegistryStorage methods", "the directory tree around the storage root"],
    ),
    P(
        "C25",
        "An interrupted put never damages the registry",
        "If a put is interrupted at any point, by a crash, an I/O error or a type that cannot be serialised, the version it was writing afterwards either reads completely as the new type or is as it was before; every other version reads as before, all listings work and further puts succeed. A put that fails with an error has stored nothing. A reader at any moment during a put sees either the state before it or the state after it.",
        "every step of a put at which it can be interrupted or observed, after every history of puts",
        "unit tests do not inject faults into the file system",
        ["recap/storage/registry.py"],
        [("writing", "storage/registry.py RegistryStorage.put")],
        over=("crash_points", "fault_sequences", "histories"),
        observe=["RegistryStorage methods after the fault"],
    ),
    P(
        "C26",
        "The registry API never overwrites versions and answers with the right status",
        "POST stores a valid type under the next version and PUT under the given one, both answer with the version used, and GET then returns it. PUT of an existing version answers 409 and changes nothing; a body that is not a valid type answers 400 and an unsupported content type 415, and neither changes anything; unknown names and versions answer 404. Concurrent requests behave as if executed one after the other: no two writes get the same version of a name and no stored version is lost or overwritten, however their bodies arrive.",
        "every sequence of requests, body, content type, name and version and every interleaving of concurrent requests",
        "the tests send well-formed requests one at a time; a race needs a body that arrives late",
        ["recap/server/registry.py", "recap/storage/registry.py"],
        [("handlers", "server/registry.py"), ("body parsing", "server/registry.py _request_to_type")],
        over=("inputs", "histories", "schedules"),
        observe=["HTTP responses", "RegistryStorage methods"],
        note="Interleavings are those of one server process (asyncio); the handlers are found through the router's routes.",
    ),
    P(
        "C20",
        "Listed settings URLs never contain credentials",
        "Listing the configured URLs (ls without a URL) returns one URL per configured URL, in order, and none of them contains the user or password of the configured one. Everything else of the URL is kept: scheme, host (IPv6 brackets included), port, path without trailing slashes, query and fragment.",
        "every list of configured URLs: scheme, user, password, host, port, path, query and fragment",
        "the tests check sixteen URLs of example.com; a leak needs a particular combination of parts",
        ["recap/settings.py", "recap/commands.py"],
        [("removal of credentials", "settings.py RecapSettings.safe_urls")],
        over=("inputs", "configurations"),
        observe=["RecapSettings.safe_urls", "commands.ls()"],
    ),
    P(
        "C21",
        "Configured credentials are only used for the configured server and path",
        "A requested URL is completed from a configured URL only if scheme, host and port are equal and its path, with . and .. resolved, is the configured path or below it by whole segments; the result has the configured user and password, the requested path, and the query parameters and fragment of both, the requested ones first. A URL that no configured URL matches is rejected with a ValueError in strict mode and returned unchanged otherwise.",
        "every list of configured URLs and every requested URL",
        "the tests match one host and a few paths; sibling paths, .. and missing paths are not tried",
        ["recap/settings.py"],
        [("matching", "settings.py RecapSettings.unsafe_url")],
        over=("inputs", "configurations"),
        observe=["RecapSettings.unsafe_url"],
    ),
    P(
        "C22",
        "A URL reaches the server, account and table it names",
        "ls and schema of a URL connect exactly once, with the driver of its scheme, to the URL's host and port with its decoded user and password and its database, or with the credentials configured for it, and return the children or the schema of exactly the catalog, schema, table, file or subject that the path names. Query parameters become options but never replace a part that the URL has. Unknown schemes and methods and paths with too few names for a schema or too many for a listing are rejected, before anything is contacted if they can be told from the URL alone.",
        "every scheme, host, port, user, password, path and query parameter, with and without settings",
        "the tests call the parsers with single URLs and never follow a URL to the driver",
        ["recap/clients/__init__.py", "recap/clients/dbapi.py", "recap/clients/postgresql.py", "recap/clients/mysql.py", "recap/clients/snowflake.py", "recap/clients/sqlite.py", "recap/clients/hive_metastore.py", "recap/clients/confluent_registry.py", "recap/clients/bigquery.py", "recap/commands.py"],
        [("URL parts", "clients/__init__.py _url_to_dict"), ("method arguments", "parse of each client"), ("connection", "create of each client")],
        over=("inputs", "configurations"),
        observe=["arguments of the drivers' connect functions", "results of commands.ls and commands.schema"],
        note="Drivers are stand-ins that record what they are given.",
    ),
    P(
        "C28",
        "Schema files and subjects are read by the format they have",
        "The schema of a file, named by a file URL or by an absolute or relative path, is that of exactly that file, read as Avro, JSON Schema or Protobuf according to its suffix in any case, and a directory lists exactly its entries. The schema of a Confluent subject is the latest version of the subject if its name ends in -key or -value and else of the name with -value appended, read by the type it is registered with. Other suffixes and types are rejected with a ValueError.",
        "every file name, directory, suffix, subject name and schema type",
        "the tests read one file name per format and mock the registry",
        ["recap/clients/fs.py", "recap/clients/confluent_registry.py"],
        [("paths", "clients/fs.py FilesystemClient.parse"), ("dispatch", "clients/fs.py FilesystemClient.schema, clients/confluent_registry.py ConfluentRegistryClient.schema")],
        over=("inputs",),
        observe=["commands.schema", "commands.ls"],
    ),
    P(
        "C29",
        "All front ends give the same answers and the gateway only for configured URLs",
        "For every URL and output format, the Python commands, the command line and the HTTP gateway return exactly the schema of the URL written by the converter of the requested format (Recap's own by default), and the same children for ls. The gateway, like the commands in strict mode, never contacts a server that the settings do not contain, while the command line does. The gateway answers content types other than the four of its formats with 415 without contacting anything.",
        "every schema, output format, front end, URL, configuration and content type",
        "the tests of the front ends mock the commands they call",
        ["recap/commands.py", "recap/cli.py", "recap/server/gateway.py"],
        [("formats", "commands.py schema, FORMAT_MAP"), ("strictness", "commands.py, cli.py, server/gateway.py")],
        over=("inputs", "configurations"),
        observe=["commands.schema and commands.ls", "output of the command line", "HTTP responses of the gateway", "connections made"],
    ),
]

NOT_APPLICABLE = []

TECHNIQUE = "symbolic execution of the real Python code with SMT (z3) deciding every branch and assertion"
NOTE = (
    "Bounded model checking: the listed functions are executed symbolically from /repo's current source and z3 decides every "
    "branch and assertion over all values within the bounds stated in the evidence file. Trusted: the executor in /verif/symx "
    "(its python semantics are cross-checked by re-running solver models natively on every run), z3, the stubs listed in the evidence."
)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    man = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']} quick",
                "thorough_cmd": f"./check {p['id']} thorough",
                "technique": TECHNIQUE,
                "level": "model_checking",
                "level_note": NOTE + (" " + p["_note"] if p["_note"] else ""),
            }
            for p in PROPS
            if p["id"] not in na
        ],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks were added to /repo; the code is instrumented at import time from its current source.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
