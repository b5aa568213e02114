"""C14 Hive Metastore -> Recap, C18 BigQuery -> Recap"""

import recap.types as T
from google.cloud import bigquery
from props.lib import I31, I63, _s, all_of, any_of, attempt, deep_eq, field_name, freeze, neg, norm, why, words
from pymetastore import stats as ST
from pymetastore.htypes import (
    HCharType,
    HDecimalType,
    HListType,
    HMapType,
    HPrimitiveType,
    HStructType,
    HUnionType,
    HVarcharType,
    PrimitiveCategory as PC,
)
from pymetastore.metastore import HColumn, HStorage, HTable, StorageFormat
from recap.clients.bigquery import BigQueryClient
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.converters.bigquery import BigQueryConverter
from recap.converters.hive_metastore import HiveMetastoreConverter

TEXT = ((32, 126),)
TS = "build.recap.Timestamp"
DEC = "build.recap.Decimal"


class Unmappable(Exception):
    pass


def nullable(n, **extra):
    """the union of null and n; doc and name belong to the union"""
    return dict(_s("union", types=[_s("null"), n]), extra=dict({"default": None}, **extra))


# --------------------------------------------------------------------------
# C14

PRIM = {
    "BOOLEAN": _s("bool"),
    "BYTE": _s("int", bits=8, signed=True),
    "SHORT": _s("int", bits=16, signed=True),
    "INT": _s("int", bits=32, signed=True),
    "LONG": _s("int", bits=64, signed=True),
    "FLOAT": _s("float", bits=32),
    "DOUBLE": _s("float", bits=64),
    "STRING": _s("string", bytes_=None, variable=True),
    "BINARY": _s("bytes", bytes_=2_147_483_647, variable=True),
    "DATE": _s("int", "build.recap.Date", {"unit": "day"}, bits=32, signed=True),
    "TIMESTAMP": _s("int", TS, {"unit": "nanosecond", "timezone": "UTC"}, bits=64, signed=True),
    "TIMESTAMPLOCALTZ": _s("int", TS, {"unit": "nanosecond", "timezone": None}, bits=64, signed=True),
    "INTERVAL_YEAR_MONTH": _s("bytes", "build.recap.Interval", {"signed": True, "unit": "month"}, bytes_=12, variable=True),
    "INTERVAL_DAY_TIME": _s("bytes", "build.recap.Interval", {"signed": True, "unit": "second"}, bytes_=12, variable=True),
}
ATOMS = ("BOOLEAN", "INT", "STRING")


def hive(cx, shape, st):
    """(Hive type, normal form without the nullable wrapper | 'null' | union members)"""
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else shape[1:]
    if kind == "prim":
        k = cx.choose("prim", tuple(PRIM))
        return HPrimitiveType(PC[k]), PRIM[k]
    if kind == "atom":
        k = cx.choose("prim", ATOMS)
        return HPrimitiveType(PC[k]), PRIM[k]
    if kind == "void":
        return HPrimitiveType(PC.VOID), _s("null")
    if kind == "unknown":
        st["bad"] = True
        return HPrimitiveType(PC.UNKNOWN), None
    if kind == "decimal":
        p, s = cx.int("precision", 1, 38), cx.int("scale", 0, 38)
        return HDecimalType(p, s), _s("bytes", DEC, {"precision": p, "scale": s}, bytes_=16, variable=False)
    if kind == "varchar":
        n = cx.int("length", 1, 65535)
        return HVarcharType(n), _s("string", bytes_=n, variable=True)
    if kind == "char":
        n = cx.int("length", 1, 255)
        return HCharType(n), _s("string", bytes_=n, variable=False)
    if kind == "list":
        h, n = hive(cx, sub[0], st)
        return HListType(h), _s("list", values=wrap(n), length=None, variable=True)
    if kind == "map":
        h, n = hive(cx, sub[0], st)
        h2, n2 = hive(cx, sub[1], st)
        return HMapType(h, h2), _s("map", keys=wrap(n), values=wrap(n2))
    if kind == "struct":
        names, hs, fs = [], [], []
        for s in sub:
            name = field_name(cx, "field", 1, 1, TEXT)
            h, n = hive(cx, s, st)
            names.append(name)
            hs.append(h)
            fs.append(wrap(n, name=name))
        return HStructType(names, hs), _s("struct", fields=fs)
    if kind == "union":
        hs, members = [], [_s("null")]
        for s in sub:
            h, n = hive(cx, s, st)
            hs.append(h)
            for m in n["types"] if n is not None and n["kind"] == "union" else [n]:
                if not any(bool(deep_eq(m, x)) for x in members):
                    members.append(m)
        return HUnionType(hs), _s("union", types=members)
    raise AssertionError(kind)


def wrap(n, **extra):
    if n is None:
        return None
    if n["kind"] == "null":
        return dict(n, extra=dict(n["extra"], **extra))
    if n["kind"] == "union":
        return dict(n, extra=dict({"default": None}, **extra))
    return nullable(n, **extra)


def table(name, cols):
    return HTable("db", name, "MANAGED_TABLE", cols, [], HStorage(StorageFormat("", "", "")), {})


def hive_table(cx, shapes):
    st = {"bad": False}
    cols, want = [], []
    for s in shapes:
        h, n = hive(cx, s, st)
        name = field_name(cx, "column", 1, 1, TEXT)
        c = cx.choose("comment", ("none", "empty", "text"))
        comment = None if c == "none" else "" if c == "empty" else cx.str("comment.text", 1, 1, TEXT)
        cols.append(HColumn(name, h, comment))
        w = wrap(n, name=name)
        if w is not None and c == "text":
            w = dict(w, doc=comment)
        want.append(w)
    tname = cx.str("table", 1, 1, TEXT)
    got = attempt(HiveMetastoreConverter().to_recap, table(tname, cols))
    if st["bad"]:
        cx.check(got[0] == "err" and got[1] == "ValueError", "an unsupported type was not rejected with a ValueError: " + why(got))
        cx.cover("unsupported")
        return
    cx.check(got[0] == "ok", "a supported table was rejected: " + why(got))
    if got[0] != "ok":
        return
    t = norm(got[1], False)
    cx.check(t["kind"] == "struct" and len(t["fields"]) == len(want), "not one field per column")
    cx.check(deep_eq(t["extra"], {"name": tname}), "the struct is not named like the table")
    for f, w in zip(t["fields"], want):
        cx.check(deep_eq(f, w), "a column has the wrong type, name or doc")
    first = freeze(got[1])
    other = attempt(HiveMetastoreConverter().to_recap, table("other", [HColumn("z", HPrimitiveType(PC.INT), None)]))
    cx.check(other[0] == "ok" and len(other[1].fields) == 1, "a supported table was rejected after another one: " + why(other))
    cx.check(deep_eq(freeze(got[1]), first), "a later conversion changed an earlier result")
    again = attempt(HiveMetastoreConverter().to_recap, table(tname, cols))
    cx.check(again[0] == "ok" and deep_eq(freeze(again[1]), freeze(got[1])), "the same table converts differently the second time")
    cx.observe("type", freeze(got[1]))
    cx.cover("end")


class Hms:
    """stands for the metastore connection"""

    def __init__(self, tables, stats):
        self.tables, self.stats = tables, stats

    def list_databases(self):
        out = []
        for d, _, _ in self.tables:
            if not any(bool(d == x) for x in out):
                out.append(d)
        return out

    def list_tables(self, db):
        return [t for d, t, _ in self.tables if d == db]

    def get_table(self, db, name):
        for d, t, h in self.tables:
            if all_of(d == db, t == name):
                return h
        raise KeyError("no such table")

    def get_table_stats(self, table, columns, *a):
        return [s for s in self.stats.get(id(table), []) if not columns or any(bool(s.columnName == c) for c in columns)]


class ColStats:
    """a column's statistics as pymetastore returns them"""

    def __init__(self, name, stats):
        self.isTblLevel, self.tableName, self.dbName, self.columnName = True, "t", "db", name
        self.stats = stats


def gen_stats(cx, kind):
    """(stats, attributes they must become)"""
    i = lambda l: cx.int(l, 0, I63)
    if kind == "none":
        return None, {}
    nulls = i("nulls")
    w = {"null_count": nulls}
    if kind in ("long", "double"):
        lo, hi, c = i("low"), i("high"), i("cardinality")
        if not cx.bool("range"):
            lo = hi = None
        cls = ST.LongTypeStats if kind == "long" else ST.DoubleTypeStats
        return cls(cardinality=c, numNulls=nulls, lowValue=lo, highValue=hi), dict(w, low=lo, high=hi, cardinality=c)
    if kind == "date":
        c = i("cardinality")
        lo, hi = i("low"), i("high")
        has = cx.choose("range", ("none", "low", "high", "both"))
        D = lambda d: ST.ttypes.Date(daysSinceEpoch=d)
        w = dict(w, cardinality=c)
        if has in ("low", "both"):
            w["low"] = lo
        if has in ("high", "both"):
            w["high"] = hi
        return ST.DateTypeStats(c, nulls, D(lo) if "low" in w else None, D(hi) if "high" in w else None), w
    if kind == "decimal":
        c = i("cardinality")
        has = cx.choose("range", ("none", "low", "high", "both"))
        w = dict(w, cardinality=c)
        if has in ("low", "both"):
            w["low"] = i("low")  # stands for a Decimal
        if has in ("high", "both"):
            w["high"] = i("high")
        return ST.DecimalTypeStats(c, nulls, w.get("low"), w.get("high")), w
    if kind == "string":
        m, a, c = i("max"), i("avg"), i("cardinality")
        return ST.StringTypeStats(m, a, c, nulls), dict(w, max_length=m, average_length=a, cardinality=c)
    if kind == "binary":
        m, a = i("max"), i("avg")
        return ST.BinaryTypeStats(m, a, nulls), dict(w, max_length=m, average_length=a)
    t, f = i("true"), i("false")
    return ST.BooleanTypeStats(t, f, nulls), dict(w, true_count=t, false_count=f)


STAT_TYPES = {"none": "INT", "long": "LONG", "double": "DOUBLE", "date": "DATE", "decimal": None, "string": "STRING", "binary": "BINARY", "bool": "BOOLEAN"}


def hive_stats(cx, kinds, order="same"):
    cols, base, stats = [], [], []
    for i, k in enumerate(kinds):
        name = cx.str("column", 1, 1, TEXT) + f"_{i}"
        p = STAT_TYPES[k]
        h, n = (HDecimalType(10, 2), _s("bytes", DEC, {"precision": 10, "scale": 2}, bytes_=16, variable=False)) if p is None else (HPrimitiveType(PC[p]), PRIM[p])
        cols.append(HColumn(name, h, None))
        s, w = gen_stats(cx, k)
        stats.append(ColStats(name, s))
        base.append((nullable(n, name=name), w))
    if cx.bool("reversed"):
        stats.reverse()
    if cx.bool("missing"):
        gone = stats.pop()
        base = [(n, {} if n["extra"]["name"] == gone.columnName else w) for n, w in base]
    h = table("t", cols)
    client = HiveMetastoreClient(Hms([("db", "t", h)], {id(h): stats}))
    with_stats = cx.bool("include_stats")
    got = attempt(client.schema, "db", "t", with_stats)
    cx.check(got[0] == "ok", "reading a table with statistics failed: " + why(got))
    if got[0] != "ok":
        return
    t = norm(got[1], False)
    cx.check(len(t["fields"]) == len(base), "not one field per column")
    for f, (n, w) in zip(t["fields"], base):
        want = dict(n, extra=dict(n["extra"], **(w if with_stats else {})))
        cx.check(deep_eq(f, want), "a column's statistics are wrong, missing or of another column")
    cx.cover("stats" if with_stats else "plain")


def hive_ls(cx, n):
    tabs = []
    for i in range(n):
        d, t = cx.str("db", 1, 1, TEXT), cx.str("table", 1, 1, TEXT)
        for d2, t2, _ in tabs:
            cx.assume(neg(all_of(d == d2, t == t2)))
        tabs.append((d, t, table(t, [HColumn(f"c{i}", HPrimitiveType(PC.INT), None)])))
    client = HiveMetastoreClient(Hms(tabs, {}))
    q, r = cx.str("q.db", 1, 1, TEXT), cx.str("q.table", 1, 1, TEXT)
    cx.check(deep_eq(client.ls(), Hms(tabs, {}).list_databases()), "ls does not list the databases")
    cx.check(deep_eq(client.ls(q), [t for d, t, _ in tabs if d == q]), "ls does not list the tables of the database")
    got = attempt(client.schema, q, r)
    for i, (d, t, _) in enumerate(tabs):
        if all_of(d == q, t == r):
            cx.check(got[0] == "ok" and got[1].fields[0].extra_attrs["name"] == f"c{i}", "the schema of another table was returned")
            cx.cover("found")
            return
    cx.check(got[0] == "err", "a table that does not exist has a schema")


# --------------------------------------------------------------------------
# C18

BQ = {
    ("STRING", "JSON"): "string",
    ("BYTES",): "bytes",
    ("INT64", "INTEGER", "INT", "SMALLINT", "BIGINT", "TINYINT", "BYTEINT"): _s("int", bits=64, signed=True),
    ("FLOAT", "FLOAT64"): _s("float", bits=64),
    ("BOOLEAN", "BOOL"): _s("bool"),
    ("TIMESTAMP", "DATETIME"): _s("int", TS, {"unit": "microsecond"}, bits=64, signed=True),
    ("TIME",): _s("int", "build.recap.Time", {"unit": "microsecond"}, bits=32, signed=True),
    ("DATE",): _s("int", "build.recap.Date", {"unit": "day"}, bits=32, signed=True),
    ("NUMERIC", "DECIMAL"): (16, 38),
    ("BIGNUMERIC", "BIGDECIMAL"): (32, 76),
}
BQ_TYPES = {n: w for ns, w in BQ.items() for n in ns}


class Few:
    """at most n optional attributes in one schema"""

    def __init__(self, cx, n):
        self.cx, self.n = cx, n

    def want(self, label):
        if self.n > 0 and self.cx.bool(label):
            self.n -= 1
            return True
        return False


def bq(cx, shape, o, top=True):
    """(SchemaField, expected normal form of the field)"""
    kind = shape if isinstance(shape, str) else shape[0]
    sub = [] if isinstance(shape, str) else shape[1:]
    name = field_name(cx, "name", 1, 1, TEXT)
    mode = cx.choose("mode", ("NULLABLE", "REQUIRED", "REPEATED"))
    kw = {}
    doc = None
    if o.want("has.description"):
        d = cx.choose("description", ("text", "empty", "null"))
        if d == "text":
            doc = cx.str("description.text", 1, 1, TEXT)
        kw["description"] = doc if d == "text" else "" if d == "empty" else None
    default = None
    if top and o.want("has.default"):  # only columns have one
        default = cx.str("default", 1, 1, TEXT)
        kw["default_value_expression"] = default
    if kind == "record":
        t = cx.choose("type", ("RECORD", "STRUCT"))
        inner = [bq(cx, s, o, False) for s in sub]
        kw["fields"] = [f for f, _ in inner]
        w = _s("struct", fields=[x for _, x in inner])
    else:
        if kind == "sized":
            t = cx.choose("type", ("STRING", "BYTES", "NUMERIC", "BIGDECIMAL"))
        elif kind == "atom":
            t = cx.choose("type", ("INTEGER", "BOOLEAN"))
        else:
            t = cx.choose("type", tuple(BQ_TYPES))
        w = BQ_TYPES[t]
        if w in ("string", "bytes"):
            n = None
            if o.want("has.max_length"):
                n = cx.int("max_length", 1, I63)
                kw["max_length"] = n
            w = _s(w, bytes_=n, variable=True)
        elif isinstance(w, tuple):
            p, s = w[1], 0
            if o.want("has.precision"):
                p = cx.int("precision", 1, w[1])
                kw["precision"] = p
                if o.want("has.scale"):
                    s = cx.int("scale", 0, 38)
                    kw["scale"] = s
            w = _s("bytes", DEC, {"precision": p, "scale": s}, bytes_=w[0], variable=False)
    f = bigquery.SchemaField(name, t, mode=mode, **kw)
    extra = {"name": name}
    if mode == "REPEATED":
        w = _s("list", values=w, length=None, variable=True)
    if mode == "NULLABLE":
        w = _s("union", types=[_s("null"), w])
        extra["default"] = default
    elif default is not None:
        extra["default"] = default
    return f, dict(w, doc=doc, extra=dict(w["extra"], **extra))


class BqTable:
    def __init__(self, schema):
        self.schema = schema


class Named:
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class BqService:
    """stands for google.cloud.bigquery.Client"""

    def __init__(self, tables):
        self.tables = tables  # (project, dataset, table, fields)

    def list_projects(self):
        return [Named(project_id=p) for p in dedup([x[0] for x in self.tables])]

    def list_datasets(self, project=None):
        return [Named(dataset_id=d) for d in dedup([x[1] for x in self.tables if x[0] == project])]

    def dataset(self, dataset_id, project=None):
        return BqRef(project, dataset_id)

    def list_tables(self, ref):
        return [Named(table_id=x[2]) for x in self.tables if all_of(x[0] == ref.project, x[1] == ref.dataset_id)]

    def get_table(self, ref):
        for x in self.tables:
            if all_of(x[0] == ref.project, x[1] == ref.dataset_id, x[2] == ref.table_id):
                return BqTable(x[3])
        raise KeyError("not found")


class BqRef:
    def __init__(self, project, dataset_id, table_id=None):
        self.project, self.dataset_id, self.table_id = project, dataset_id, table_id

    def table(self, table_id):
        return BqRef(self.project, self.dataset_id, table_id)


def dedup(xs):
    out = []
    for x in xs:
        if not any(bool(x == y) for y in out):
            out.append(x)
    return out


def bq_schema(cx, shapes, budget):
    o = Few(cx, budget)
    pairs = [bq(cx, s, o) for s in shapes]
    fields = [f for f, _ in pairs]
    got = attempt(BigQueryConverter().to_recap, fields)
    cx.check(got[0] == "ok", "a supported schema was rejected: " + why(got))
    if got[0] != "ok":
        return
    t = norm(got[1], False)
    cx.check(deep_eq(t, _s("struct", fields=[w for _, w in pairs])), "a field has the wrong type, name, doc or default")
    first = freeze(got[1])
    other = attempt(BigQueryConverter().to_recap, [bigquery.SchemaField("z", "INT64", "REQUIRED")])
    cx.check(other[0] == "ok" and len(other[1].fields) == 1, "a supported schema was rejected after another one: " + why(other))
    cx.check(deep_eq(freeze(got[1]), first), "a later conversion changed an earlier result")
    cx.check(deep_eq(freeze(BigQueryConverter().to_recap(fields)), first), "the same schema converts differently the second time")
    cx.observe("type", freeze(got[1]))
    cx.cover("end")


bq_words, hive_words = words(bq_schema), words(hive_table)


def bq_unknown(cx, n, nested):
    name = cx.str("type", n, n, ((65, 90), (48, 57)))
    for k in list(BQ_TYPES) + ["RECORD", "STRUCT"]:
        cx.assume(neg(name == k))
    f = bigquery.SchemaField("x", name, mode=cx.choose("mode", ("NULLABLE", "REQUIRED", "REPEATED")))
    if nested:
        f = bigquery.SchemaField("y", "RECORD", fields=[bigquery.SchemaField("z", "INT64"), f])
    got = attempt(BigQueryConverter().to_recap, [f])
    cx.check(got[0] == "err" and got[1] == "ValueError", "an unknown type was not rejected with a ValueError: " + why(got))
    cx.cover("end")


def bq_client(cx, n):
    tabs = []
    for i in range(n):
        x = tuple(cx.str(l, 1, 1, TEXT) for l in ("project", "dataset", "table"))
        for y in tabs:
            cx.assume(neg(all_of(*[a == b for a, b in zip(x, y)])))
        tabs.append(x + ([bigquery.SchemaField(f"c{i}", "INT64")],))
    svc = BqService(tabs)
    client = BigQueryClient(svc)
    p, d, t = (cx.str("q." + l, 1, 1, TEXT) for l in ("project", "dataset", "table"))
    # what the URL of a project, dataset or table is parsed to
    for method, paths, want in (
        ("ls", [], dedup([x[0] for x in tabs])),
        ("ls", [p], dedup([x[1] for x in tabs if x[0] == p])),
        ("ls", [p, d], [x[2] for x in tabs if all_of(x[0] == p, x[1] == d)]),
    ):
        _, args = BigQueryClient.parse(method, list(paths))
        got = attempt(client.ls, *args)
        cx.check(got[0] == "ok", "ls failed: " + why(got))
        if got[0] == "ok":
            cx.check(deep_eq(list(got[1]), want), "ls does not list the children")
    _, args = BigQueryClient.parse("schema", [p, d, t])
    got = attempt(client.schema, *args)
    for i, x in enumerate(tabs):
        if all_of(x[0] == p, x[1] == d, x[2] == t):
            cx.check(got[0] == "ok" and got[1].fields[0].extra_attrs["name"] == f"c{i}", "the schema of another table was returned")
            cx.cover("found")
            return
    cx.check(got[0] == "err", "a table that does not exist has a schema")
