"""C15-C17 relational columns -> Recap; C27 catalog queries"""

import recap.types as T
from props.lib import I31, I63, _s, all_of, any_of, attempt, deep_eq, field_name, freeze, neg, norm, why, words
from props.minisql import Connection
from recap.clients.dbapi import DbapiClient
from recap.clients.mysql import MysqlClient
from recap.clients.postgresql import PostgresqlClient
from recap.clients.snowflake import SnowflakeClient
from recap.clients.sqlite import SQLiteClient
from recap.converters.mysql import MysqlConverter
from recap.converters.postgresql import PostgresqlConverter
from recap.converters.snowflake import SnowflakeConverter
from recap.converters.sqlite import SQLiteConverter
from symx.core import ConcreteCtx, Unsupported, is_sym

LETTER = ((97, 122),)
NAMECH = ((32, 126),)
TEXT = ((32, 126),)
PGMAX = 1073741824
TS = "build.recap.Timestamp"
DEC = "build.recap.Decimal"


def cased(cx, name):
    how = cx.choose("case", ("lower", "upper", "mixed"))
    return name if how == "lower" else name.upper() if how == "upper" else name[:1].upper() + name[1:]


def unit_of(cx, p, rest):
    """documented unit of a fractional-second precision"""
    if p == 0:
        return "second"
    if p <= 3:
        return "millisecond"
    if p <= 6:
        return "microsecond"
    return rest


# every generator returns (information_schema row, expected normal form);
# expected None: an unsupported type


def row(**kw):
    d = {
        "CHARACTER_OCTET_LENGTH": None,
        "CHARACTER_MAXIMUM_LENGTH": None,
        "NUMERIC_PRECISION": None,
        "NUMERIC_SCALE": None,
        "DATETIME_PRECISION": None,
        "UDT_NAME": None,
        "ATTNDIMS": 0,
        "ENUM_VALUES": None,
        "COLUMN_TYPE": None,
    }
    d.update(kw)
    return d


PG = {
    "int64": ("bigint", "int8", "bigserial", "serial8"),
    "int32": ("integer", "int", "int4", "serial", "serial4"),
    "int16": ("smallint", "int2", "smallserial", "serial2"),
    "float64": ("double precision", "float8"),
    "float32": ("real", "float4"),
    "bool": ("boolean", "bool"),
    "varstr": ("text", "json", "jsonb", "character varying", "varchar"),
    "fixstr": ("character", "char", "bpchar"),
    "uuid": ("uuid",),
    "varbytes": ("bytea", "bit varying", "varbit"),
    "bits": ("bit",),
    "timestamp": ("timestamp", "timestamp without time zone", "timestamp with time zone", "timestamptz"),
    "decimal": ("decimal", "numeric"),
    "unknown": ("point", "interval", "money", "xml", "inet", "tsvector", "oid", "", "user-defined", "date", "time"),
}


def simple(kind):
    if kind[:3] == "int":
        return _s("int", bits=int(kind[3:]), signed=True)
    if kind[:5] == "float":
        return _s("float", bits=int(kind[5:]))
    if kind == "bool":
        return _s("bool")
    return None


def pg(cx, kind, few=False):
    if kind in ("array", "nested"):
        return pg_array(cx, kind)
    if kind == "enum":
        syms = [cx.str("symbol", 1, 1, TEXT) for _ in range(cx.choose("nsym", (1, 2)))]
        return row(DATA_TYPE=cased(cx, "user-defined"), UDT_NAME="mood", ENUM_VALUES=syms), _s("enum", symbols=list(syms))
    name = PG[kind][0] if few else cx.choose("type", PG[kind])
    r = row(DATA_TYPE=name if few else cased(cx, name), UDT_NAME=name)
    if kind == "unknown":
        return r, None
    n = simple(kind)
    if n is not None:
        return r, n
    if kind in ("varstr", "fixstr"):
        o = cx.int("octets", 1, I63)
        r["CHARACTER_OCTET_LENGTH"] = o
        r["CHARACTER_MAXIMUM_LENGTH"] = cx.int("chars", 1, I63)
        if kind == "varstr" and not few and cx.bool("unlimited"):
            r["CHARACTER_OCTET_LENGTH"] = o = None
        return r, _s("string", bytes_=o, variable=kind == "varstr")
    if kind == "uuid":
        return r, _s("string", "build.recap.UUID", bytes_=36, variable=False)
    if kind == "varbytes":
        if name != "bytea":
            r["CHARACTER_MAXIMUM_LENGTH"] = cx.int("bits", 1, 83886080)
        return r, _s("bytes", bytes_=PGMAX, variable=True)
    if kind == "bits":
        b = cx.int("bits", 1, 83886080)  # the maximum of PostgreSQL
        r["CHARACTER_MAXIMUM_LENGTH"] = b
        return r, _s("bytes", bytes_=(b + 7) // 8, variable=False)
    if kind == "timestamp":
        p = cx.int("precision", 0, 6)
        r["DATETIME_PRECISION"] = p
        return r, _s("int", TS, {"unit": unit_of(cx, p, None)}, bits=64, signed=True)
    if kind == "decimal":
        p, s = cx.int("precision", 1, 1000), cx.int("scale", -1000, 1000)
        if cx.bool("unconstrained"):
            p = s = None
        r["NUMERIC_PRECISION"], r["NUMERIC_SCALE"] = p, s
        return r, _s("bytes", DEC, {"precision": p, "scale": s}, bytes_=32, variable=False)
    raise AssertionError(kind)


PG_ELEMENTS = {
    "_int8": _s("int", bits=64, signed=True),
    "_int4": _s("int", bits=32, signed=True),
    "_int2": _s("int", bits=16, signed=True),
    "_float8": _s("float", bits=64),
    "_float4": _s("float", bits=32),
    "_bool": _s("bool"),
    "_text": _s("string", bytes_=PGMAX, variable=True),
    "_varchar": _s("string", bytes_=PGMAX, variable=True),
    "_bpchar": _s("string", bytes_=PGMAX, variable=False),
    "_uuid": _s("string", "build.recap.UUID", bytes_=36, variable=False),
    "_bytea": _s("bytes", bytes_=PGMAX, variable=True),
    "_bit": _s("bytes", bytes_=PGMAX, variable=False),
    "_varbit": _s("bytes", bytes_=PGMAX, variable=True),
    "_timestamp": _s("int", TS, {"unit": "microsecond"}, bits=64, signed=True),
    "_timestamptz": _s("int", TS, {"unit": "microsecond"}, bits=64, signed=True),
    "_numeric": _s("bytes", DEC, {"precision": None, "scale": None}, bytes_=32, variable=False),
    "_point": None,
    "_interval": None,
}


def pg_array(cx, kind):
    udt = cx.choose("udt", tuple(PG_ELEMENTS) if kind == "array" else ("_int4", "_text"))
    e = PG_ELEMENTS[udt]
    dims = cx.choose("dims", (1, 2, 3))
    r = row(DATA_TYPE=cased(cx, "array") if kind == "array" else "ARRAY", UDT_NAME=udt, ATTNDIMS=dims)
    return r, None if e is None else {"array": e, "dims": dims}


MY_INT = {"bigint": 64, "int": 32, "integer": 32, "mediumint": 24, "smallint": 16, "tinyint": 8}
MY = {
    "varstr": ("text", "json", "mediumtext", "longtext", "tinytext", "varchar"),
    "fixstr": ("char", "enum", "set"),
    "varbytes": ("blob", "mediumblob", "longblob", "tinyblob", "varbinary"),
    "fixbytes": ("binary",),
    "timestamp": ("timestamp", "datetime"),
    "decimal": ("decimal", "numeric", "dec"),
    "unknown": ("geometry", "point", "date", "time", "polygon", ""),
}


def my(cx, kind, few=False):
    if kind == "int":
        name = cx.choose("type", tuple(MY_INT) if not few else ("int", "tinyint"))
        how = cx.choose("sign", ("", " unsigned", " UNSIGNED", "(10) unsigned", " unsigned zerofill") if not few else ("", " unsigned"))
        r = row(DATA_TYPE=name if few else cased(cx, name), COLUMN_TYPE=name + how)
        return r, _s("int", bits=MY_INT[name], signed=not how)
    if kind == "float":
        name = cx.choose("type", ("float", "double"))
        p = cx.int("precision", 0, 53)
        r = row(DATA_TYPE=name if few else cased(cx, name), NUMERIC_PRECISION=p, COLUMN_TYPE=name)
        return r, _s("float", bits=64 if name == "double" or p > 23 else 32)
    if kind == "bit":
        p = cx.int("bits", 1, 64)
        return row(DATA_TYPE="bit", NUMERIC_PRECISION=p, COLUMN_TYPE="bit"), _s("bytes", bytes_=8, variable=False)
    if kind == "year":
        return row(DATA_TYPE=cased(cx, "year"), COLUMN_TYPE="year"), _s("int", bits=16, signed=False)
    name = MY[kind][0] if few else cx.choose("type", MY[kind])
    r = row(DATA_TYPE=name if few else cased(cx, name), COLUMN_TYPE=name)
    if kind == "unknown":
        return r, None
    if kind in ("varstr", "fixstr", "varbytes", "fixbytes"):
        o = cx.int("octets", 1, 4294967295)
        if name == "json":
            o = None
        r["CHARACTER_OCTET_LENGTH"] = o
        r["CHARACTER_MAXIMUM_LENGTH"] = cx.int("chars", 1, 4294967295)
        return r, _s("string" if kind.endswith("str") else "bytes", bytes_=o, variable=kind.startswith("var"))
    if kind == "timestamp":
        p = cx.int("precision", 0, 6)
        r["DATETIME_PRECISION"] = p
        return r, _s("int", TS, {"unit": unit_of(cx, p, None)}, bits=64, signed=True)
    p, s = cx.int("precision", 1, 65), cx.int("scale", 0, 30)
    r["NUMERIC_PRECISION"], r["NUMERIC_SCALE"] = p, s
    return r, _s("bytes", DEC, {"precision": p, "scale": s}, bytes_=32, variable=False)


SF = {
    "float64": ("float", "float4", "float8", "double", "double precision", "real"),
    "bool": ("boolean",),
    "decimal": ("number", "decimal", "numeric", "int", "integer", "bigint", "smallint", "tinyint", "byteint"),
    "varstr": ("varchar", "string", "text", "nvarchar", "nvarchar2", "char varying", "nchar varying"),
    "char": ("char", "nchar", "character"),
    "binary": ("binary", "varbinary", "blob"),
    "date": ("date",),
    "timestamp": ("timestamp", "timestamp_ntz", "timestamp_ltz", "timestamp_tz", "datetime"),
    "time": ("time",),
    "unknown": ("variant", "object", "array", "geography", "vector", ""),
}


def sf(cx, kind, few=False):
    name = SF[kind][0] if few else cx.choose("type", SF[kind])
    r = row(DATA_TYPE=name if few else cased(cx, name))
    if kind == "unknown":
        return r, None
    n = simple(kind)
    if n is not None:
        return r, n
    # catalogs may give the name with its parameters
    if not few and name in ("number", "decimal", "numeric", "varchar", "string", "text", "nvarchar", "char", "nchar", "character") and cx.bool("written"):
        r["DATA_TYPE"] = r["DATA_TYPE"] + ("(38,0)" if kind == "decimal" else "(16)")
    if kind == "decimal":
        p, s = cx.int("precision", 1, 38), cx.int("scale", 0, 37)
        if cx.bool("unset"):
            p = s = None
        r["NUMERIC_PRECISION"], r["NUMERIC_SCALE"] = p, s
        return r, _s("bytes", DEC, {"precision": 38 if p is None else p, "scale": 0 if s is None else s}, bytes_=16, variable=False)
    if kind in ("varstr", "char", "binary"):
        o = cx.int("octets", 1, 16_777_216)
        if cx.bool("unset"):
            o = None
        r["CHARACTER_OCTET_LENGTH"] = o
        r["CHARACTER_MAXIMUM_LENGTH"] = cx.int("chars", 1, 16_777_216)
        dflt = {"varstr": 16_777_216, "char": 1, "binary": 8_388_608}[kind]
        return r, _s("bytes" if kind == "binary" else "string", bytes_=dflt if o is None else o, variable=True)
    if kind == "date":
        return r, _s("int", "build.recap.Date", {"unit": "day"}, bits=32, signed=True)
    unit = "nanosecond"
    if cx.bool("parameter"):
        p = cx.choose("precision", (0, 1, 3, 4, 6, 7, 9) if not few else (0, 3, 9))
        r["DATA_TYPE"] = r["DATA_TYPE"] + cx.choose("spelling", ("(%d)", " (%d)", "( %d )")) % p
        unit = unit_of(cx, p, "nanosecond")
    return r, _s("int", TS if kind == "timestamp" else "build.recap.Time", {"unit": unit}, bits=64 if kind == "timestamp" else 32, signed=True)


LITE = {"int64": "INTEGER", "text": "TEXT", "blob": "BLOB", "float64": "REAL"}


def lite(cx, kind, few=False):
    n = simple(kind)
    r = row(TYPE=LITE[kind])
    if n is not None:
        return r, n
    o = cx.int("octets", 1, I31)
    if cx.bool("unset"):
        o = None
    r["CHARACTER_OCTET_LENGTH"] = o
    return r, _s("string" if kind == "text" else "bytes", bytes_=I31 if o is None else o, variable=True)


def converter(cx, dialect):
    if dialect == "pg":
        return PostgresqlConverter(), pg
    if dialect == "pgdim":
        return PostgresqlConverter(enforce_array_dimensions=True), pg
    if dialect == "mysql":
        return MysqlConverter(), my
    if dialect == "snowflake":
        return SnowflakeConverter(), sf
    return SQLiteConverter(), lite


def valid_alias(cx, a):
    """namespace.Name over letters, digits and _, parts not starting with a digit"""
    parts = a.split(".")
    ok = len(parts) > 1
    for p in parts:
        ok = ok and len(p) > 0
        for i, c in enumerate(p):
            if not ok:
                return False
            ok = bool(any_of(all_of(c >= "a", c <= "z"), all_of(c >= "A", c <= "Z"), c == "_", all_of(i > 0, c >= "0", c <= "9")))
    return ok


def expect_field(cx, f, w, dialect, nullable, default, name, aliases):
    """one struct field against the expectation for its column"""
    n = norm(f, expand=False)
    extra = {"name": name}
    if nullable or default is not None:
        extra["default"] = default
    cx.check(deep_eq(n["extra"].get("name"), name), "a field does not have its column's name")
    cx.check(("default" in n["extra"]) == ("default" in extra), "a default is present for a column without one, or missing")
    cx.check(deep_eq(n["extra"].get("default"), default), "a field does not have its column's default")
    base = n
    if nullable:
        cx.check(n["kind"] == "union" and len(n["types"]) == 2, "a nullable column is not a union with null")
        if n["kind"] != "union" or len(n["types"]) != 2:
            return
        cx.check(n["types"][0]["kind"] == "null", "a nullable column is not a union with null")
        base = n["types"][1]
    else:
        cx.check(n["kind"] != "union", "a column that is not nullable became a union")
        base = dict(n, extra={k: v for k, v in n["extra"].items() if k not in ("name", "default")})
    if "array" not in w:
        cx.check(deep_eq(base, w), "a column has the wrong type")
        return
    if dialect == "pgdim":
        want = _s("union", types=[_s("null"), w["array"]])
        for _ in range(w["dims"]):
            want = _s("list", values=want, length=None, variable=True)
        cx.check(deep_eq(base, want), "an array column is not a nested list of its dimensions")
        return
    a = base["alias"]
    cx.check(base["kind"] == "list" and a is not None, "an array column is not a named list")
    if base["kind"] != "list" or a is None:
        return
    cx.check(valid_alias(cx, a), "the alias of an array column is not valid")
    for b in aliases:
        cx.check(neg(a == b), "two array columns share an alias")
    aliases.append(a)
    v = norm(f.types[1] if nullable else f, expand=False)["values"]
    cx.check(v["kind"] == "union" and len(v["types"]) == 2, "an array's values are not its element type or the array itself")
    if v["kind"] != "union" or len(v["types"]) != 2:
        return
    cx.check(deep_eq(v["types"][0], w["array"]), "an array has the wrong element type")
    cx.check(all_of(v["types"][1]["kind"] == "proxy", v["types"][1]["alias"] == a), "an array does not refer to itself for further dimensions")
    lst = f.types[1] if nullable else f
    again = attempt(lambda: norm(lst.values.types[1].resolve(), False))
    cx.check(again[0] == "ok", "the reference of an array to itself cannot be resolved")
    want = dict(base, extra={}, alias=again[1].get("alias") if again[0] == "ok" else None)
    cx.check(deep_eq(again[1], want), "the reference of an array resolves to another type")


def columns(cx, dialect, kinds, again=False, names="sym", few=False, plain=False):
    """one field per column, in order, independent of the other columns"""
    conv, gen = converter(cx, dialect)
    rows, want = [], []
    few = few or len(kinds) > 1
    for i, k in enumerate(kinds):
        r, w = gen(cx, k, few)
        name = field_name(cx, "name", 1, 2 if len(kinds) == 1 else 1, NAMECH)
        if names == "suffix":
            name = name + f"_{i}"
        r["COLUMN_NAME"] = name
        nullable = "YES" if plain else cx.choose("nullable", ("YES", "NO") if few and i else ("YES", "NO", "yes", "no"))
        r["IS_NULLABLE"] = nullable
        d = "none" if plain else cx.choose("default", ("none", "str", "empty", "word") if len(kinds) == 1 else ("none", "str", "empty") if i == 0 else ("none", "str"))
        # any text, also one that looks like an SQL keyword
        r["COLUMN_DEFAULT"] = None if d == "none" else "" if d == "empty" else cx.str("default.str", 1, 1, TEXT) if d == "str" else cx.str("default.word", 4, 4, ((32, 126),))
        rows.append(r)
        want.append((w, nullable.upper() == "YES", r["COLUMN_DEFAULT"], name))
    before = freeze(rows)
    got = attempt(conv.to_recap, rows)
    cx.check(deep_eq(freeze(rows), before), "the column rows were modified")
    if any(w[0] is None for w in want):
        cx.check(got[0] == "err" and got[1] == "ValueError", "a column of an unsupported type was not rejected with a ValueError: " + why(got))
        cx.cover("unsupported")
        return
    cx.check(got[0] == "ok", "supported columns were rejected: " + why(got))
    if got[0] != "ok":
        return
    judge(cx, got[1], want, dialect)
    if again:
        first = freeze(got[1])
        if rows:
            other = attempt(conv.to_recap, [dict(rows[0], COLUMN_NAME="other")])
            cx.check(other[0] == "ok" and len(other[1].fields) == 1, "a column is rejected as that of another table: " + why(other))
            cx.check(deep_eq(freeze(got[1]), first), "a later conversion changed an earlier result")
        got2 = attempt(conv.to_recap, rows)
        cx.check(got2[0] == "ok", "the same columns were rejected the second time: " + why(got2))
        if got2[0] != "ok":
            return
        judge(cx, got2[1], want, dialect)
        cx.check(deep_eq(freeze(got2[1]), first), "the same columns convert differently the second time")
        cx.check(deep_eq(freeze(got[1]), first), "a later conversion changed an earlier result")
        cx.cover("again")
    cx.observe("type", freeze(got[1]))
    cx.cover("end")


columns_words = words(columns)


def judge(cx, t, want, dialect):
    n = norm(t, False)
    cx.check(n["kind"] == "struct" and n["alias"] is None and n["extra"] == {}, "the result is not a plain struct")
    cx.check(len(n["fields"]) == len(want), "not one field per column")
    if len(n["fields"]) != len(want):
        return
    aliases = []
    for f, (w, nullable, default, name) in zip(t.fields, want):
        expect_field(cx, f, w, dialect, nullable, default, name, aliases)


KNOWN = {
    "pg": ([n for k, v in PG.items() if k != "unknown" for n in v] + ["array"], ("char", "bit", "varchar", "timestamp", "decimal", "numeric")),
    "mysql": (list(MY_INT) + ["float", "double", "bit", "year"] + [n for k, v in MY.items() if k != "unknown" for n in v], ("varchar", "char", "varbinary", "binary", "bit", "timestamp", "datetime")),
    "snowflake": ([n for k, v in SF.items() if k != "unknown" for n in v], ("number", "decimal", "numeric", "varchar", "string", "text", "nvarchar", "char", "nchar", "timestamp", "datetime", "time")),
}


def unknown_names(cx, dialect, n):
    """any name of n letters that is not a type name is rejected"""
    conv, _ = converter(cx, dialect)
    name = cx.str("type", n, n, ((97, 122), (65, 90)))
    low = name.lower()
    names, prefixes = KNOWN[dialect]
    for k in names:
        cx.assume(neg(low == k))
    for k in prefixes:  # followed by parameters or qualifiers
        cx.assume(neg(low.startswith(k)))
    r = row(DATA_TYPE=name, UDT_NAME=name, COLUMN_TYPE=name, COLUMN_NAME="c", IS_NULLABLE="NO", COLUMN_DEFAULT=None, CHARACTER_OCTET_LENGTH=8, CHARACTER_MAXIMUM_LENGTH=8, NUMERIC_PRECISION=8, NUMERIC_SCALE=0, DATETIME_PRECISION=3)
    got = attempt(conv.to_recap, [r])
    cx.check(got[0] == "err" and got[1] == "ValueError", "a column of an unknown type was not rejected with a ValueError: " + why(got))
    cx.cover("end")


# --------------------------------------------------------------------------
# C17 SQLite

AFF = (("int", ("INT",)), ("text", ("CHAR", "CLOB", "TEXT")), ("blob", ("BLOB",)), ("real", ("REAL", "FLOA", "DOUB")))


def affinity(typ):
    """SQLite's documented rules, on the declared type"""
    if typ == "":
        return "blob"
    u = typ.upper()
    for a, subs in AFF:
        if any_of(*[s in u for s in subs]):
            return a
    return "numeric"


def lite_want(a, p):
    """p: the first parameter of the type, or None"""
    if a == "int":
        return _s("int", bits=64, signed=True)
    if a == "text" or a == "blob":
        return _s("string" if a == "text" else "bytes", bytes_=I31 if p is None or p == 0 else p, variable=True)
    if a == "real":
        return _s("float", bits=32 if p is not None and p != 0 and p <= 23 else 64)
    m = {"bytes_": I31, "variable": True}
    return _s("union", types=[_s("null"), _s("int", bits=64, signed=True), _s("float", bits=64), _s("string", **m), _s("bytes", **m)])


INFO_COLS = ["cid", "name", "type", "notnull", "dflt_value", "pk"]


class LiteCursor:
    """stands for SQLite in symbolic runs; native runs use SQLite"""

    def __init__(self, tables):
        self.tables, self.rows, self.description = tables, [], None

    def execute(self, q, params=()):
        import sqlite3

        if not is_sym(q) and q.strip().upper().startswith("SELECT"):
            db = {k: ("main", ["type", "name", "tbl_name"], [["table", n, n] for n, _ in self.tables]) for k in ("sqlite_schema", "sqlite_master")}
            db["pragma_table_info"] = lambda name: (INFO_COLS, self.info(name))
            cur = Connection(db, nocase=True).cursor()
            cur.execute(q, params)
            self.rows, self.description = cur.fetchall(), cur.description
            return self
        head = "PRAGMA TABLE_INFO("
        if not q[: len(head)].upper() == head:
            raise Unsupported("query")
        name, rest = ident(q[len(head) :])
        if name is None or not (rest == ")" or rest == ");"):
            raise sqlite3.OperationalError("syntax error")
        self.description = [(c,) for c in INFO_COLS]
        self.rows = self.info(name)
        return self

    def info(self, name):
        for n, cols in self.tables:
            if n.lower() == name.lower():
                return [tuple([i] + list(c)) for i, c in enumerate(cols)]
        return []

    def fetchall(self):
        return list(self.rows)

    def fetchone(self):
        return self.rows[0] if self.rows else None

    def __iter__(self):
        return iter(self.rows)

    def close(self):
        pass


def ident(s):
    """(identifier, rest) at the start of SQL text, or (None, None)"""
    if len(s) == 0:
        return None, None
    for open_, close in (('"', '"'), ("'", "'"), ("`", "`"), ("[", "]")):
        if s[0] == open_:
            i, out = 1, ""
            while i < len(s):
                if s[i] == close:
                    if close != "]" and i + 1 < len(s) and s[i + 1] == close:
                        out, i = out + close, i + 2
                        continue
                    return out, s[i + 1 :]
                out, i = out + s[i], i + 1
            return None, None
    i = 0
    while i < len(s):
        c = s[i]
        if not any_of(all_of(c >= "a", c <= "z"), all_of(c >= "A", c <= "Z"), c == "_", all_of(i > 0, any_of(all_of(c >= "0", c <= "9"), c == "$"))):
            break
        i += 1
    if i == 0:
        return None, None
    return s[:i], s[i:]


class LiteConnection:
    def __init__(self, tables):
        self.tables = tables

    def cursor(self):
        return LiteCursor(self.tables)

    def execute(self, q, params=()):
        return self.cursor().execute(q, params)


def q(s):
    return '"' + s.replace('"', '""') + '"'


def lite_connect(cx, tables):
    """tables: [(name, [(column, declared type, notnull, default, pk)])]"""
    if not isinstance(cx, ConcreteCtx):
        return LiteConnection(tables)
    import sqlite3

    c = sqlite3.connect(":memory:")
    for name, cols in tables:
        defs = []
        for n, typ, notnull, default, pk in cols:
            # quoted where it could be a keyword; SQLite reports it unquoted
            d = q(n) + (" " + (q(typ) if typ.isalpha() else typ) if typ else "")
            d += " NOT NULL" if notnull else ""
            d += " DEFAULT " + default if default is not None else ""
            defs.append(d)
        pks = [q(c[0]) for c in sorted(cols, key=lambda c: c[4]) if c[4]]
        if pks:
            defs.append("PRIMARY KEY (" + ", ".join(pks) + ")")
        c.execute(f"CREATE TABLE {q(name)} ({', '.join(defs)})")
    return c


UP = ((65, 90), (97, 122))


def lite_schema(cx, word, params="", n=0, twocols=False, digits=3):
    """types through the client: declared type -> field.  word: 'sym' = n symbolic letters"""
    if word == "sym":
        typ = cx.str("type", n, n, UP) if n else ""
    else:
        typ = cased(cx, word)
    p = None
    a = affinity(typ)
    if params:
        digits = cx.str("digits", 1, digits, ((48, 57),))
        p = int(digits)
        left, right = params.split("#")
        typ = typ + left + digits + right
    cols, want = [], []
    name = cx.str("column", 1, 1, NAMECH)
    notnull, pk = cx.choose("key", ((0, 0), (1, 0), (0, 1), (1, 1)) if not params else ((0, 0), (1, 0)))
    dflt = cx.choose("default", (None, "5", "'x'", "NULL")) if not params else None
    cols.append((name, typ, notnull, dflt, pk))
    want.append((name, a, p, bool(notnull or pk), dflt))
    if twocols:
        other = cx.str("column", 1, 1, NAMECH)
        cx.assume(neg(name.lower() == other.lower()))
        # a key of two columns is declared in either order
        notnull2, pk2 = cx.choose("key", ((0, 0), (1, 0), (0, 1)) if not pk else ((0, 0), (1, 0), (0, 2), (0, -1)))
        if pk2 == -1:
            cols[0], pk2 = cols[0][:4] + (2,), 1
        cols.append((other, "VARCHAR(7)", notnull2, None, pk2))
        want.append((other, "text", 7, bool(notnull2 or pk2), None))
    client = SQLiteClient(lite_connect(cx, [("t", cols), ("u", [("z", "BLOB", 0, None, 0)])]))
    got = attempt(client.schema, "t")
    cx.check(got[0] == "ok", "a table cannot be read: " + why(got))
    if got[0] != "ok":
        return
    t = norm(got[1], False)
    cx.check(t["kind"] == "struct" and len(t["fields"]) == len(want), "not one field per column")
    for f, (nm, af, prm, nn, d) in zip(t["fields"], want):
        w = lite_want(af, prm)
        extra = {"name": nm}
        if d is not None or not nn:
            extra["default"] = d
        if not nn and af != "numeric":
            w = _s("union", types=[_s("null"), w])
        cx.check(deep_eq(f, dict(w, extra=extra)), "a column of affinity " + af + " is read as something else")
        cx.cover(af)
    cx.observe("type", freeze(got[1]))
    cx.cover("end")


def lite_tables(cx, n):
    """ls and schema by table name, whatever characters the names contain"""
    names = []
    for _ in range(2):
        nm = cx.str("table", 1, n, NAMECH)
        for o in names:
            cx.assume(neg(nm.lower() == o.lower()))
        names.append(nm)
    tables = [(nm, [("c%d" % i, "INTEGER", 1, None, 0)] + [("d", "TEXT", 1, None, 0)] * i) for i, nm in enumerate(names)]
    client = SQLiteClient(lite_connect(cx, tables))
    ls = attempt(client.ls)
    cx.check(ls[0] == "ok" and len(ls[1]) == 2, "ls does not list the tables")
    cx.check(any_of(deep_eq(list(ls[1]), names), deep_eq(list(ls[1]), names[::-1])), "ls does not list exactly the tables")
    for i, nm in enumerate(names):
        got = attempt(client.schema, nm)
        cx.check(got[0] == "ok", "a listed table cannot be read: " + why(got))
        if got[0] == "ok":
            cx.check(deep_eq([f.extra_attrs["name"] for f in got[1].fields], ["c%d" % i] + ["d"] * i), "the schema of another table was returned")
    other = cx.str("table", 0, n + 1, NAMECH)
    for o in names:
        cx.assume(neg(other.lower() == o.lower()))
    got = attempt(client.schema, other)
    cx.check(got[0] == "err" and got[1] == "ValueError", "a table that does not exist was not rejected: " + why(got))
    cx.cover("end")


# --------------------------------------------------------------------------
# C27 catalog queries

INFO = ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type", "character_octet_length", "character_maximum_length", "numeric_precision", "numeric_scale", "datetime_precision", "column_type", "udt_name"]
CLIENTS = {"pg": PostgresqlClient, "mysql": MysqlClient, "snowflake": SnowflakeClient}


def make_client(dialect, conn):
    if dialect == "dbapi":
        return DbapiClient(conn, SnowflakeConverter())
    return CLIENTS[dialect](conn)


def catalog(cx, dialect, ntables, ncols):
    """a symbolic database: tables [(catalog, schema, table, [columns in order])] + its catalog relations"""
    tabs = []
    for i in range(ntables):
        cat = "def" if dialect == "mysql" else cx.str("catalog", 1, 1, NAMECH)
        if dialect == "pg" and tabs:
            cat = tabs[0][0]  # PostgreSQL shows the connected database only
        tabs.append((cat, cx.str("schema", 1, 1, NAMECH), cx.str("table", 1, 1, NAMECH), [f"c{i}{j}" for j in range(ncols)]))
    for i, a in enumerate(tabs):
        for b in tabs[:i]:
            cx.assume(neg(all_of(a[0] == b[0], a[1] == b[1], a[2] == b[2])))
    cols, attrs, cls, enums = [], [], [], []
    schemas = []
    for i, (c, s, t, names) in enumerate(tabs):
        for k, (c2, s2, oid) in enumerate(schemas):
            if bool(all_of(c2 == c, s2 == s)):
                break
        else:
            schemas.append((c, s, 100 + len(schemas)))
            k = len(schemas) - 1
        cls.append([200 + i, t, schemas[k][2]])
        for j, n in enumerate(names):
            enum = dialect == "pg" and j == 0
            cols.append([c, s, t, n, j + 1, None, "NO", "USER-DEFINED" if enum else "integer", None, None, None, None, None, "int", "e"])
            attrs.append([200 + i, n, 300 + i if enum else 23, 0])
        enums.append((300 + i, [f"s{i}b", f"s{i}a"]))
    if cx.bool("stored backwards"):
        cols.reverse()
        attrs.reverse()
    # labels are stored in the order in which they were added
    pge = [[o, l, k + 1.0] for o, ls in enums for k, l in reversed(list(enumerate(ls)))]
    db = {
        "columns": ("information_schema", INFO, cols),
        "tables": ("information_schema", ["table_catalog", "table_schema", "table_name", "table_type"], [[c, s, t, "BASE TABLE"] for c, s, t, _ in tabs]),
        "schemata": ("information_schema", ["catalog_name", "schema_name"], [[c, s] for c, s, _ in schemas]),
        "pg_namespace": ("pg_catalog", ["oid", "nspname"], [[o, s] for _, s, o in schemas]),
        "pg_class": ("pg_catalog", ["oid", "relname", "relnamespace"], cls),
        "pg_attribute": ("pg_catalog", ["attrelid", "attname", "atttypid", "attndims"], attrs),
        "pg_type": ("pg_catalog", ["oid", "typtype"], [[23, "b"]] + [[o, "e"] for o, _ in enums]),
        "pg_enum": ("pg_catalog", ["enumtypid", "enumlabel", "enumsortorder"], pge),
    }
    cats = []
    for c, _, _, _ in tabs:
        if not any(bool(c == x) for x in cats):
            cats.append(c)
    db["pg_database"] = ("pg_catalog", ["datname"], [[c] for c in cats])
    db["databases"] = ("information_schema", ["database_name"], [[c] for c in cats])
    db["catalogs"] = ("information_schema", ["catalog_name"], [[c] for c in cats])
    return tabs, schemas, cats, Connection(db)


def client_schema(cx, dialect, ntables, ncols):
    tabs, _, _, conn = catalog(cx, dialect, ntables, ncols)
    client = make_client(dialect, conn)
    c = "def" if dialect == "mysql" else cx.str("q.catalog", 1, 1, NAMECH)
    s, t = cx.str("q.schema", 1, 1, NAMECH), cx.str("q.table", 1, 1, NAMECH)
    got = attempt(client.schema, s, t) if dialect == "mysql" else attempt(client.schema, c, s, t)
    cx.check(got[0] == "ok", "a table cannot be read: " + why(got))
    if got[0] != "ok":
        return
    names = [f.extra_attrs.get("name") for f in got[1].fields]
    for i, x in enumerate(tabs):
        if all_of(x[0] == c, x[1] == s, x[2] == t):
            cx.check(deep_eq(names, x[3]), "the schema is not the columns of the table, in order")
            if dialect == "pg":
                f = norm(got[1].fields[0], False)
                cx.check(f["kind"] == "enum" and f["symbols"] == [f"s{i}b", f"s{i}a"], "an enum column does not have its values in order")
                cx.check(all(norm(g, False)["kind"] == "int" for g in got[1].fields[1:]), "a column got the type of another column")
            cx.cover("found")
            return
    cx.check(names == [], "columns of another table were returned")
    cx.cover("missing")


def client_ls(cx, dialect, ntables, level):
    tabs, schemas, cats, conn = catalog(cx, dialect, ntables, 1)
    client = make_client(dialect, conn)
    c = "def" if dialect == "mysql" else cx.str("q.catalog", 1, 1, NAMECH)
    s = cx.str("q.schema", 1, 1, NAMECH)
    if dialect == "mysql":
        args = () if level == "schemas" else (s,)
    else:
        args = () if level == "catalogs" else (c,) if level == "schemas" else (c, s)
    got = attempt(client.ls, *args)
    cx.check(got[0] == "ok", "ls failed: " + why(got))
    if got[0] != "ok":
        return
    if level == "catalogs":
        want = cats
    elif level == "schemas":
        want = [x[1] for x in schemas if x[0] == c]
    else:
        want = [x[2] for x in tabs if all_of(x[0] == c, x[1] == s)]
    cx.check(len(got[1]) == len(want), "ls lists too much or too little")
    for w in want:
        cx.check(any_of(*[w == g for g in got[1]]), "ls misses an entry")
    if level == "catalogs":
        for a, b in zip(got[1], got[1][1:]):
            cx.check(a < b, "catalogs are not sorted")
    cx.cover("end")


class Recorder:
    """remembers the statements; answers nothing"""

    description = []

    def __init__(self):
        self.log = []

    def cursor(self, *a, **k):
        return self

    def execute(self, query, params=()):
        self.log.append((query, list(params.values() if isinstance(params, dict) else params)))

    def fetchall(self):
        return []

    def fetchone(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


def client_bind(cx, dialect, op, n):
    """names reach the database as bound values only: never as SQL text"""
    logs = []
    nargs = {"schema": 3, "tables": 2, "schemas": 1}[op] - (1 if dialect == "mysql" else 0)
    for which in ("first", "second"):
        conn = Recorder()
        client = make_client(dialect, conn)
        args = [cx.str(which, 1, n, NAMECH) for _ in range(nargs)]
        got = attempt(client.schema if op == "schema" else client.ls, *args)
        cx.check(got[0] == "ok", "the query failed: " + why(got))
        logs.append((conn.log, args))
    (a, aa), (b, bb) = logs
    cx.check(len(a) == len(b) and len(a) > 0, "the number of statements depends on the names")
    for (q1, p1), (q2, p2) in zip(a, b):
        cx.check(deep_eq(q1, q2), "the text of a statement depends on the names given")
    for x in aa:
        cx.check(any_of(*[x == p for _, ps in a for p in ps]), "a name is not passed to the database unchanged")
    cx.cover("end")
