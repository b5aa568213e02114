"""C20 safe URLs, C21 credentials of settings, C22 from a URL to a connection"""

import os
import sqlite3
from contextlib import contextmanager
from urllib.parse import unquote

import confluent_kafka.schema_registry as csr_library
import mysql.connector
import psycopg2
import snowflake.connector
from google.cloud import bigquery
from pymetastore.metastore import HMS

# --------------------------------------------------------------------------
# stand-ins for the drivers, in place before the clients are imported


class Net:
    """what the drivers are asked for; answers with self.answer"""

    def __init__(self, answer):
        self.answer, self.calls = answer, []


NET = None


def driver(name, real=None):
    def connect(*a, **k):
        if NET is None and real is not None:
            return real(*a, **k)
        NET.calls.append((name, list(a), dict(k)))
        return Entered(NET.answer)

    return connect


class Entered:
    """a connection as a context manager, for drivers that return one"""

    def __init__(self, conn):
        self.conn = conn

    def __enter__(self):
        return self.conn

    def __exit__(self, *a):
        return None

    def __getattr__(self, n):
        return getattr(self.conn, n)


psycopg2.connect = driver("psycopg2")
mysql.connector.connect = driver("mysql")
snowflake.connector.connect = driver("snowflake")
sqlite3.connect = driver("sqlite3", sqlite3.connect)
HMS.create = staticmethod(driver("hms"))
csr_library.SchemaRegistryClient = driver("csr")
bigquery.Client = driver("bigquery")

import recap.clients as C  # noqa: E402
import recap.clients.bigquery  # noqa: E402,F401
import recap.clients.confluent_registry  # noqa: E402
import recap.clients.fs  # noqa: E402,F401
import recap.clients.hive_metastore  # noqa: E402,F401
import recap.commands as M  # noqa: E402
import recap.types as T  # noqa: E402
from props import sql  # noqa: E402
from props.lib import all_of, any_of, attempt, deep_eq, neg, why  # noqa: E402
from props.warehouse import BqService, Hms, table  # noqa: E402
from pymetastore.htypes import HPrimitiveType, PrimitiveCategory as PC  # noqa: E402
from pymetastore.metastore import HColumn  # noqa: E402
from recap.settings import RecapSettings  # noqa: E402

LOWER = ((97, 122),)
ALNUM = ((97, 122), (48, 57), (65, 90))
# what pydantic and urllib leave alone in the user and password
CRED = ((33, 33), (36, 36), (38, 38), (40, 46), (48, 57), (65, 90), (95, 95), (97, 122), (126, 126))
HEX = ((48, 57), (65, 70))
HOST = ((97, 122), (45, 46), (48, 57))


class Url:
    """stands for pydantic's URL type in symbolic runs"""

    def __init__(self, u):
        self.u = u
        self.scheme, self.host, self.port = u["scheme"], u["host"] or None, u["port"]
        self.path, self.query, self.fragment = u["path"] or None, u["query"], u["fragment"]
        self.username, self.password = u["user"], u["password"]

    def unicode_string(self):
        return text(self.u)

    def __str__(self):
        return text(self.u)

    def __repr__(self):
        return text(self.u)


def url(scheme, host="", port=None, user=None, password=None, path="", query=None, fragment=None):
    return {"scheme": scheme, "host": host, "port": port, "user": user, "password": password, "path": path, "query": query, "fragment": fragment}


def netloc(u, safe=False):
    out = ""
    if not safe and (u["user"] is not None or u["password"] is not None):
        out = u["user"] or ""
        if u["password"] is not None:
            out = out + ":" + u["password"]
        out = out + "@"
    out = out + u["host"]
    if u["port"] is not None:
        out = out + ":" + str(u["port"])
    return out


def text(u, safe=False, path=None):
    out = u["scheme"] + "://" + netloc(u, safe) + (u["path"] if path is None else path)
    if u["query"] is not None:
        out = out + "?" + u["query"]
    if u["fragment"] is not None:
        out = out + "#" + u["fragment"]
    return out


def settings(cx, urls):
    """settings as they are loaded from the environment"""
    if cx.symbolic:
        return RecapSettings.model_construct(urls=[Url(u) for u in urls])
    return RecapSettings(urls=[text(u) for u in urls])


def configure(cx, urls):
    s = settings(cx, urls)
    for m in (C, M):
        m.settings = s


def credential(cx, label, n, escaped):
    if not escaped:
        return cx.str(label + ".text", 1, n, CRED)
    return cx.str(label + ".text", 1, 1, CRED) + "%" + cx.str(label + ".hex", 1, 1, ((50, 55),)) + cx.str(label + ".hex2", 1, 1, HEX)


def gen(cx, label, scheme, creds, host, port, segs, slash, query, fragment, n=1):
    """a symbolic URL.  creds: '', 'u', 'up', 'p' (upper case: with an escaped character); host: 'sym', 'name' (dotted), 'case' (mixed case), 'v6', ''; segs: number of path segments"""
    user = credential(cx, label + ".user", n, "U" in creds) if "u" in creds.lower() else None
    password = credential(cx, label + ".password", n, "P" in creds) if "p" in creds.lower() else None
    h = cx.str(label + ".host", 1, n, LOWER) if host == "sym" else "[::1]" if host == "v6" else ""
    if host == "name":
        h = cx.str(label + ".host", 1, 3, HOST)
    elif host == "case":
        h = cx.str(label + ".host", 1, 2, ((65, 90), (97, 122)))
    p = cx.int(label + ".port", 1, 65535) if port == "sym" else port
    path = ""
    for _ in range(segs):
        path = path + "/" + cx.str(label + ".segment", 1, n, ALNUM)
    path = path + "/" * slash
    q = cx.str(label + ".key", 1, 1, LOWER) + "=" + cx.str(label + ".value", 1, 1, ALNUM) if query else None
    f = cx.str(label + ".fragment", 1, 1, ALNUM) if fragment else None
    return url(scheme, h, p, user, password, path, q, f)


# --------------------------------------------------------------------------
# C20

SCHEMES = ("postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms", "sqlite", "bigquery", "file")


def safe_urls(cx, urls, n=1):
    """urls: [{what to vary}]"""
    made = []
    for spec in urls:
        spec = dict({"schemes": ["postgresql"], "creds": "up", "host": "sym", "port": None, "segments": [1], "slash": [0], "query": False, "fragment": False}, **spec)
        scheme = cx.choose("scheme", spec["schemes"])
        made.append(gen(cx, "url", scheme, spec["creds"], spec["host"], spec["port"], cx.choose("segments", spec["segments"]), cx.choose("slash", spec["slash"]), spec["query"] and cx.bool("query"), spec["fragment"] and cx.bool("fragment"), n))
    urls = made
    s = settings(cx, urls)
    got = attempt(lambda: s.safe_urls)
    cx.check(got[0] == "ok", "the safe URLs cannot be listed: " + why(got))
    cx.check(len(got[1]) == len(urls), "not one safe URL per URL")
    for g, u in zip(got[1], urls):
        path = u["path"].rstrip("/")
        cx.check(g == text(u, True, path), "a safe URL is not the URL without its user and password")
        # the credentials as such
        if u["user"] is not None or u["password"] is not None:
            cx.check(neg("@" in g), "a safe URL has a user or password")
            cx.cover("credentials")
    configure(cx, urls)
    ls = attempt(M.ls)
    cx.check(ls[0] == "ok" and deep_eq(list(ls[1]), list(got[1])), "ls without a URL does not list the safe URLs")
    cx.observe("safe", list(got[1]))
    cx.cover("end")


# --------------------------------------------------------------------------
# C21


def segments(path):
    """the directories a path names, with . and .. resolved; [None] above the root is the root"""
    out = []
    for s in path:
        if s == "" or s == ".":
            continue
        if s == "..":
            out = out[:-1]
        else:
            out = out + [s]
    return out


def below(req, conf):
    r, c = segments(req), segments(conf)
    if len(r) < len(c):
        return False
    return all_of(*[a == b for a, b in zip(r, c)]) if c else True


def pairs(q):
    """the parameters of a query string"""
    if q is None or q == "":
        return []
    return [tuple(x.split("=")) for x in q.split("&")]


def split(u):
    """[before the query, query, fragment] of a URL's text"""
    rest, _, fragment = u.partition("#")
    rest, _, query = rest.partition("?")
    return rest, query, fragment


def same_params(got, want):
    return all_of(len(got) == len(want), *[any_of(*[deep_eq(list(g), list(w)) for g in got]) for w in want])


def merge(cx, confs, req, strict, schemes=("postgresql",), hosts=("sym",), ports=(None,), creds=("up",), query=False, fragment=False, dots=False, own=False, slash=(0,), req_hosts=None):
    """confs: [number of path segments]; req: number of path segments of the request"""
    urls, paths = [], []
    for k in confs:
        scheme = cx.choose("conf.scheme", schemes)
        c = cx.choose("conf.creds", creds)
        u = gen(cx, "conf", scheme, "", cx.choose("conf.host.kind", hosts), cx.choose("conf.port.kind", ports), 0, 0, query and cx.bool("conf.query"), fragment and cx.bool("conf.fragment"))
        if "u" in c:
            u["user"] = "user%d" % len(urls)
        if "p" in c:
            u["password"] = "secret%d" % len(urls)
        segs = [cx.str("conf.segment", 1, 2, ALNUM) for _ in range(k)]
        u["path"] = "".join(["/" + s for s in segs]) + "/" * cx.choose("conf.slash", slash)
        urls.append(u)
        paths.append(segs)
    r = gen(cx, "req", cx.choose("req.scheme", schemes), "", cx.choose("req.host.kind", req_hosts or hosts), cx.choose("req.port.kind", ports), 0, 0, query and cx.bool("req.query"), fragment and cx.bool("req.fragment"))
    if own:
        r["user"], r["password"] = "me", "mine"
    segs = []
    for _ in range(req):
        kind = cx.choose("req.segment.kind", ("name", "..", ".", "")) if dots else "name"
        segs.append(cx.str("req.segment", 1, 2, ALNUM) if kind == "name" else kind)
    r["path"] = "".join(["/" + s for s in segs]) + "/" * cx.choose("req.slash", slash)
    if dots and req and segs[0] == "":
        cx.skip()  # a path that starts with two slashes
    s = settings(cx, urls)
    given = text(r)
    got = attempt(s.unsafe_url, given, strict)
    fits = []
    for u, p in zip(urls, paths):
        if all_of(u["scheme"] == r["scheme"], u["host"] == r["host"].lower(), same_port(u["port"], r["port"]), below(segs, p)):
            fits.append(u)
    if not fits:
        cx.cover("none")
        if strict:
            cx.check(got[0] == "err" and got[1] == "ValueError", "a URL that is not configured is accepted: " + why(got))
        else:
            cx.check(got[0] == "ok" and got[1] == given, "a URL that is not configured is changed: " + why(got))
        return
    cx.check(got[0] == "ok", "a configured URL is rejected: " + why(got))
    cx.observe("merged", got[1])
    rest, q, f = split(got[1])
    raw = "".join(["/" + x for x in segs if not (x == "" or x == ".")])
    names = ["/".join([""] + segments(segs)), raw]
    ok = False
    for u in fits:
        for p in names:
            loc = u["scheme"] + "://" + netloc(u) + p
            want = [x for x in pairs(u["query"]) if not any(bool(x[0] == y[0]) for y in pairs(r["query"]))] + pairs(r["query"])
            wf = r["fragment"] or u["fragment"] or ""
            if all_of(any_of(rest == loc, rest == loc + "/"), same_params(pairs(q), want), f == wf):
                ok = True
    cx.check(ok, "a configured URL is not the request with the user, password and parameters of the settings")
    cx.cover("merged")


def same_port(a, b):
    if a is None or b is None:
        return a is None and b is None
    return a == b


# --------------------------------------------------------------------------
# C22


class Registered:
    def __init__(self, subject, text_, kind):
        self.subject, self.schema = subject, self
        self.schema_str, self.schema_type = text_, kind


class Registry:
    """stands for the Confluent client"""

    def __init__(self, subjects):
        self.subjects = subjects  # [(name, text, kind)]

    def get_subjects(self):
        return [s for s, _, _ in self.subjects]

    def get_latest_version(self, subject):
        for s, t, k in self.subjects:
            if s == subject:
                return Registered(s, t, k)
        raise KeyError("no such subject")


AVRO = '{"type": "record", "name": "r", "fields": [{"name": "c0", "type": "int"}]}'


def world(cx, scheme, names):
    """a system with one table, of the given names; -> (answer of the driver, children by depth)"""
    if scheme in ("postgresql", "snowflake"):
        c, s, t = names
        tabs, schemas, cats, conn = fixed(cx, "pg" if scheme == "postgresql" else "snowflake", c, s, t)
        return conn
    if scheme == "mysql":
        s, t = names
        return fixed(cx, "mysql", "def", s, t)[3]
    if scheme == "thrift+hms":
        d, t = names
        return Hms([(d, t, table(t, [HColumn("c0", HPrimitiveType(PC.INT), None)]))], {})
    if scheme == "bigquery":
        return BqService([tuple(names) + ([bigquery.SchemaField("c0", "INT64")],)])
    if scheme == "sqlite":
        return sql.lite_connect(cx, [(names[0], [("c0", "INTEGER", 1, None, 0)])])
    return Registry([(names[0] + "-value", AVRO, "AVRO")])


class Given:
    """names for sql.catalog instead of symbolic ones"""

    def __init__(self, cx, names):
        self.cx, self.names = cx, list(names)

    def str(self, label, *a):
        return self.names.pop(0)

    def bool(self, label):
        return False

    def assume(self, c):
        self.cx.assume(c)


def fixed(cx, dialect, c, s, t):
    return sql.catalog(Given(cx, [s, t] if dialect == "mysql" else [c, s, t]), dialect, 1, 1)


DEPTH = {"postgresql": 3, "snowflake": 3, "mysql": 2, "thrift+hms": 2, "bigquery": 3, "sqlite": 1, "http+csr": 1, "https+csr": 1}
COMPONENTS = ("host", "hostname", "port", "user", "username", "password", "dbname", "database", "schema", "account", "netloc", "path", "paths", "scheme", "dialect", "driver", "url", "fragment")


# options of the drivers that a URL can set
LIBPQ = """passfile channel_binding connect_timeout client_encoding options application_name
fallback_application_name keepalives keepalives_idle keepalives_interval keepalives_count
tcp_user_timeout replication gssencmode sslmode requiressl sslcompression sslcert sslkey
sslpassword sslrootcert sslcrl sslcrldir sslsni requirepeer ssl_min_protocol_version
ssl_max_protocol_version krbsrvname gsslib target_session_attrs"""
CSR = ("ssl.ca.location", "ssl.key.location", "ssl.certificate.location")
OPTIONS = {
    "postgresql": tuple(LIBPQ.split()),
    "mysql": ("ssl_ca", "ssl_cert", "ssl_key", "charset", "collation", "time_zone", "connection_timeout", "ssl_disabled", "auth_plugin"),
    "snowflake": ("role", "warehouse", "schema", "authenticator", "login_timeout"),
    "thrift+hms": ("a", "b"),
    "bigquery": ("a", "b"),
    "http+csr": CSR,
    "https+csr": CSR,
    "sqlite": ("timeout", "cached_statements", "detect_types", "isolation_level"),
}
# options that are no strings: what the driver has to be given
VALUES = {
    "timeout": {"5": 5, "0.5": 0.5, "30": 30},
    "cached_statements": {"7": 7, "128": 128},
    "detect_types": {"0": 0, "3": 3},
    "isolation_level": {"DEFERRED": "DEFERRED", "EXCLUSIVE": "EXCLUSIVE"},
}


def reach(cx, scheme, method, nseg, creds, port=None, strict=False, prefix="", extra=None, slash=0, n=1, host="sym"):
    """method of a URL with nseg names: which server is contacted, as whom, and what is returned"""
    global NET
    names = [cx.str("name", 1, n, ALNUM) for _ in range(DEPTH[scheme])]
    segs = []
    for i in range(nseg):
        segs.append(cx.str("segment", 1, n, ALNUM))
    if scheme in ("http+csr", "https+csr") and method == "ls":
        segs = []
    u = gen(cx, "url", scheme, creds, host, port, 0, 0, False, False, n)
    if scheme in ("sqlite", "bigquery"):
        u["host"], u["port"], u["user"], u["password"] = "", None, None, None
    top = prefix + "".join(["/" + s for s in segs[:-1]]) if scheme in ("sqlite",) else prefix
    if scheme == "sqlite":
        segs, files = segs[-1:] if method == "schema" else [], segs[:-1] if method == "schema" else segs
        top = prefix + "".join(["/" + s for s in files])
    u["path"] = top + "".join(["/" + s for s in segs]) + "/" * slash
    if extra == "option":
        option = cx.choose("option", OPTIONS[scheme])
        if scheme == "sqlite":
            options = [[option, cx.choose("option.value", tuple(VALUES[option]))]]
        else:
            options = [[option, cx.str("option.value", 1, 1, ALNUM)]]
        if scheme != "sqlite" and cx.bool("second option"):
            options.append([[o for o in OPTIONS[scheme] if o != options[0][0]][0], "7"])
        u["query"] = "&".join([k + "=" + v for k, v in options])
        u["options"] = options
    elif extra == "uri":
        # SQLite's own URIs have parameters that belong to the name of the database
        u["query"] = "&".join(cx.choose("uri", (("mode=ro", "uri=true"), ("uri=1", "cache=shared", "mode=memory"), ("uri=true",))))
    elif extra == "component":
        u["query"] = cx.choose("parameter", COMPONENTS) + "=" + cx.str("value", 1, 1, ALNUM)
    conf = []
    login = u
    if strict:
        # the settings have the credentials, the request has none
        login = dict(u, path="", query=None)
        if scheme == "sqlite":
            login["path"] = top
        conf = [login]
        u = dict(u, user=None, password=None)
    configure(cx, conf)
    NET = Net(world(cx, scheme, names))
    try:
        fn = M.ls if method == "ls" else M.schema
        got = attempt(fn, text(u), strict=strict)
        calls = NET.calls
    finally:
        NET = None
    valid = len(segs) == DEPTH[scheme] if method == "schema" else len(segs) < DEPTH[scheme]
    if not valid:
        if scheme == "mysql" and method == "ls" or scheme == "thrift+hms" and method == "ls" and len(segs) == 2:
            cx.cover("lenient")  # MySQL's ls ignores a table, Hive's lists it
            return
        if method == "schema" and len(segs) > DEPTH[scheme]:
            cx.cover("lenient")  # names after the table are ignored
            return
        cx.check(got[0] == "err", "a URL that names no parent or no table is answered")
        if scheme not in ("bigquery", "thrift+hms"):
            cx.check(got[1] == "ValueError", "a URL that names no parent or no table is not a ValueError: " + why(got))
            cx.check(calls == [], "a URL that names no parent or no table is connected to")
        cx.cover("invalid")
        return
    cx.check(len(calls) == 1, "not one connection: " + str(len(calls)) + " " + why(got))
    check_login(cx, scheme, calls[0], login, segs, top, extra, u)
    hit = all_of(*[a == b for a, b in zip(names, segs)]) if segs else True
    if method == "schema":
        if hit:
            cx.check(got[0] == "ok", "the schema of a table cannot be read: " + why(got))
            fields = [f if isinstance(f, str) else f.get("name") for f in got[1]["fields"]]
            cx.check(fields in (["c0"], ["c00"]), "the schema is not the one of the table")
            cx.cover("schema")
        elif scheme in ("postgresql", "snowflake", "mysql"):
            cx.check(got[0] == "err" or got[1]["fields"] == [], "a table that does not exist has columns")
        else:
            cx.check(got[0] == "err", "a table that does not exist has a schema")
        return
    cx.check(got[0] == "ok", "ls fails: " + why(got))
    child = names[len(segs)] if scheme not in ("http+csr", "https+csr") else names[0] + "-value"
    cx.check(deep_eq(list(got[1]), [child] if hit else []), "ls does not list the children")
    cx.cover("ls")


def check_login(cx, scheme, call, u, segs, top, extra, given):
    """the driver is given the URL's server, credentials and database"""
    name, args, kw = call
    want = {"postgresql": "psycopg2", "mysql": "mysql", "snowflake": "snowflake", "thrift+hms": "hms", "bigquery": "bigquery", "sqlite": "sqlite3"}.get(scheme, "csr")
    cx.check(name == want, "another driver is used")
    loose = given["query"].split("=")[0] if extra == "component" else None
    if scheme == "bigquery":
        cx.check(args == [] and not kw, "BigQuery is not given the default credentials")
        return
    if scheme == "thrift+hms":
        got = dict(zip(("host", "port"), args), **kw)
        cx.check(got["host"] == u["host"], "another host is contacted")
        cx.check(same_port(got["port"], u["port"]), "another port is contacted")
        return
    if scheme in ("http+csr", "https+csr"):
        conf = args[0] if args else kw["conf"]
        base = scheme.split("+")[0] + "://" + netloc(u) + top
        cx.check(any_of(conf["url"] == base, conf["url"] == base + "/"), "another registry is contacted")
        if extra == "option":
            for k, v in u["options"]:
                cx.check(conf.get(k) == v, "an option of the URL is lost")
        return
    if scheme == "sqlite":
        db = args[0] if args else kw["database"]
        if extra == "uri":
            cx.check(kw.get("uri") and db == top[1:] + "?" + given["query"], "another database is opened")
            cx.cover("uri")
            return
        cx.check(db == top[1:], "another database file is opened")
        if extra == "option":
            for k, v in u["options"]:
                cx.check(kw.get(k) == VALUES[k][v] and isinstance(kw.get(k), str) == isinstance(VALUES[k][v], str), "an option of the URL is lost")
        return
    got = dict(kw)
    host = "account" if scheme == "snowflake" else "host"
    base = "dbname" if scheme == "postgresql" else "database"
    cx.check(got.get(host) == u["host"].strip("[]"), "another host is contacted")
    if u["port"] is not None:
        cx.check(str(got.get("port")) == str(u["port"]), "another port is contacted")
    elif loose != "port":
        cx.check(got.get("port") is None, "a port is made up")
        if scheme != "postgresql":
            cx.check("port" not in got, "the driver is given no number as port")  # only psycopg2 takes None
    for k in ("user", "password"):
        if u[k] is not None:
            cx.check(got.get(k) == unquote(u[k]), "the " + k + " is not the one of the URL")
        elif loose != k:
            cx.check(got.get(k) is None, "a " + k + " is made up")
    if segs:
        cx.check(got.get(base) == segs[0], "another database is used")
    elif loose != base:
        cx.check(got.get(base) is None, "a database is made up")
    if extra == "option":
        for k, v in u["options"]:
            cx.check(got.get(k) == v, "an option of the URL is lost")
    cx.cover("login")


def unknown(cx, n):
    """schemes and methods there is no client for"""
    configure(cx, [])
    scheme = cx.str("scheme", 1, n, LOWER)
    for k in C.CLIENTS:
        if k:
            cx.assume(neg(scheme == k))
    u = scheme + "://" + cx.str("host", 1, 1, LOWER) + "/" + cx.str("name", 1, 1, ALNUM)
    for fn in (M.ls, M.schema):
        got = attempt(fn, u, strict=False)
        cx.check(got[0] == "err" and got[1] == "ValueError", "an unknown scheme is not a ValueError: " + why(got))
    method = cx.str("method", 1, 2, LOWER)
    cx.assume(neg(method == "ls"))
    for scheme, depth in DEPTH.items():
        got = attempt(C.parse_url, method, scheme + "://h" + "/a" * depth, False)
        cx.check(got[0] == "err" and got[1] == "ValueError", "an unknown method is not a ValueError: " + why(got))
    cx.cover("end")
