"""C28 files and subjects, C29 command line, HTTP gateway and output formats"""

import builtins
import dataclasses
import enum
import inspect
import json
import os
import shutil
import tempfile

import rich
import typer
from proto_schema_parser.generator import Generator

from symx import models
from props import urls as U
from props.lib import all_of, any_of, attempt, deep_eq, neg, why

REAL = {"json": rich.print_json, "print": rich.print, "echo": typer.echo, "generate": Generator.generate}
OUT = None  # what the command line prints, while a symbolic run listens
LONG = False  # whether the text has lines longer than a terminal
PROTO = None  # the files that were turned into text, in symbolic runs


def _json(json_=None, *a, data=None, **k):
    if OUT is None:
        return REAL["json"](json_, *a, data=data, **k)
    OUT.append(("json", data if json_ is None else json.loads(json_)))


def _print(*a, **k):
    if OUT is None:
        return REAL["print"](*a, **k)
    OUT.append(("rich", a[0] if a else ""))


def _echo(message=None, *a, **k):
    if OUT is None:
        return REAL["echo"](message, *a, **k)
    OUT.append(("text", message))


def _generate(self, file):
    if PROTO is None:
        return REAL["generate"](self, file)
    PROTO.append(file)
    return "proto %d" % (len(PROTO) - 1)


rich.print_json, rich.print, typer.echo = _json, _print, _echo
Generator.generate = _generate

import recap.cli  # noqa: E402
import recap.commands as M  # noqa: E402
import recap.server.gateway as gateway  # noqa: E402
from props.registry import LOOP, SCRATCH, asgi, ask  # noqa: E402,F401
from props.warehouse import Hms, table  # noqa: E402
from pymetastore.htypes import HListType, HMapType, HPrimitiveType, HStructType, PrimitiveCategory as PC  # noqa: E402
from pymetastore.metastore import HColumn  # noqa: E402
from recap.clients.hive_metastore import HiveMetastoreClient  # noqa: E402
from recap.converters.avro import AvroConverter  # noqa: E402
from recap.converters.json_schema import JSONSchemaConverter  # noqa: E402
from recap.converters.protobuf import ProtobufConverter  # noqa: E402
from recap.types import to_dict  # noqa: E402

ALNUM, LOWER = U.ALNUM, U.LOWER
IDENT = ((97, 122), (65, 90))

# --------------------------------------------------------------------------
# C28

TEXTS = {
    "avro": '{"type": "record", "name": "r", "fields": [{"name": "a", "type": "int"}]}',
    "json": '{"type": "object", "properties": {"j": {"type": "string"}}, "required": ["j"]}',
    "proto": 'syntax = "proto3";\nmessage R {\n  bool p = 1;\n}\n',
}
FIELD = {"avro": "a", "json": "j", "proto": "p"}
SUFFIXES = {"avsc": "avro", "avro": "avro", "avdl": "avro", "avpr": "avro", "json": "json", "jsonschema": "json", "jsons": "json", "proto": "proto", "protobuf": "proto", "protos": "proto", "proto3": "proto", "proto2": "proto"}


class Files:
    """a directory of schema files: in a scratch directory, or pretended"""

    def __init__(self, cx, files, relative):
        self.cx = cx
        self.cwd = None
        if cx.symbolic:
            self.root = "/" + cx.str("root", 1, 1, LOWER) + "scratch"
            # relative paths are seen from the directory
            models.FILES = [(n if relative else self.root + "/" + n, t) for n, t in files]
        else:
            cx.str("root", 1, 1, LOWER)
            self.root = tempfile.mkdtemp(dir=SCRATCH)
            for n, t in files:
                p = os.path.join(self.root, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(t)
            if relative:
                self.cwd = os.getcwd()
                os.chdir(self.root)

    def close(self):
        if self.cx.symbolic:
            models.FILES = None
            return
        if self.cwd:
            os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)


def cased(cx, word):
    how = cx.choose("case", ("lower", "upper", "title"))
    return word.upper() if how == "upper" else word.title() if how == "title" else word


def read(fields):
    return [f if isinstance(f, str) else f.get("name") for f in fields]


def files(cx, suffix, form, deep=False, n=1):
    """the schema of a file.  suffix: a known one, 'sym3' = three symbolic letters, or ''"""
    base = cx.str("name", 1, n, ALNUM)
    if cx.bool("dotted"):
        base = base + "." + cx.choose("middle", ("json", "x"))
    kind = None
    if suffix.startswith("sym"):
        k = int(suffix[3:])
        suf = cx.str("suffix", k, k, ((97, 122), (65, 90), (48, 57)))
        for s in SUFFIXES:
            cx.assume(neg(suf.lower() == s))
    elif suffix == "":
        suf = None
        base = base.replace(".", "-")
    else:
        suf, kind = cased(cx, suffix), SUFFIXES[suffix]
    name = base if suf is None else base + "." + suf
    other = cx.str("other", 1, 1, ((111, 112),)) + "ther.avsc"
    if deep:
        d = cx.str("directory", 1, n, ALNUM)
        name = d + "/" + name
        other = d + "/" + other
    cx.assume(neg(name == other))
    text = TEXTS[kind or "avro"]
    w = Files(cx, [(name, text), (other, TEXTS["avro"].replace('"a"', '"wrong"'))], form == "relative")
    U.configure(cx, [U.url("file", path="/")])
    try:
        u = name if form == "relative" else ("file://" if form == "url" else "") + w.root + "/" + name
        strict = cx.bool("strict")
        got = attempt(M.schema, u, strict=strict)
        # reading a file does not depend on the files read before
        again = attempt(M.schema, u, strict=strict) if kind is not None else None
        u2 = other if form == "relative" else ("file://" if form == "url" else "") + w.root + "/" + other
        got2 = attempt(M.schema, u2, strict=strict)
        parent = u.rpartition("/")[0]
        ls = attempt(M.ls, parent, strict=strict) if parent != "" else None
    finally:
        w.close()
    if kind is None:
        cx.check(got[0] == "err" and got[1] == "ValueError", "a file of an unknown type is not a ValueError: " + why(got))
        cx.cover("unknown")
    else:
        cx.check(got[0] == "ok", "a " + kind + " file cannot be read: " + why(got))
        cx.check(read(got[1]["fields"]) == [FIELD[kind]], "a " + kind + " file is read as something else")
        cx.check(again[0] == "ok" and again[1] == got[1], "a file is read differently the second time: " + why(again))
        cx.cover(kind)
    cx.check(got2[0] == "ok" and read(got2[1]["fields"]) == ["wrong"], "a file is read differently after another one: " + why(got2))
    if ls is not None:
        cx.check(ls[0] == "ok", "a directory cannot be listed: " + why(ls))
        want = [x.rpartition("/")[2] for x in (name, other)]
        cx.check(any_of(deep_eq(list(ls[1]), want), deep_eq(list(ls[1]), want[::-1])), "a directory is not listed")
        cx.cover("ls")


def subjects(cx, kind, n=1):
    """the schema of a Confluent subject.  kind: avro, json, proto or other"""
    base = cx.str("subject", 1, n, ((45, 46), (95, 95)) + ALNUM)
    ask_for = base + cx.choose("ending", ("", "-key", "-value", "-keys", "-Value", "-key-x"))
    given = any_of(ask_for.endswith("-key"), ask_for.endswith("-value"))
    right = ask_for if bool(given) else ask_for + "-value"
    if kind == "other":
        typ = cx.choose("type", ("avro", "XML", "THRIFT", "", None))
    else:
        typ = {"avro": "AVRO", "json": "JSON", "proto": "PROTOBUF"}[kind]
    wrong = TEXTS["avro"].replace('"a"', '"wrong"')
    subs = [(right, TEXTS.get(kind, wrong), typ)]
    for x in (ask_for, ask_for + "-key", ask_for + "-value"):
        if not any(bool(x == s) for s, _, _ in subs):
            subs.append((x, wrong, "AVRO"))
    if cx.bool("listed backwards"):
        subs.reverse()
    U.configure(cx, [])
    U.NET = U.Net(U.Registry(subs))
    try:
        got = attempt(M.schema, "http+csr://h/" + ask_for, strict=False)
        ls = attempt(M.ls, "http+csr://h", strict=False)
    finally:
        U.NET = None
    cx.check(ls[0] == "ok" and deep_eq(list(ls[1]), [s for s, _, _ in subs]), "ls does not list the subjects: " + why(ls))
    if kind == "other":
        cx.check(got[0] == "err" and got[1] == "ValueError", "a subject of an unknown type is not a ValueError: " + why(got))
        cx.cover("unknown subject")
        return
    cx.check(got[0] == "ok", "a subject cannot be read: " + why(got))
    cx.check(read(got[1]["fields"]) == [FIELD[kind]], "another subject is read, or as another format")
    cx.cover(kind + " subject")


# --------------------------------------------------------------------------
# C29

TYPES = {"avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf", "recap": "application/x-recap+json"}


def column(cx, shape):
    if shape == "int":
        return HPrimitiveType(PC.INT)
    if shape == "string":
        return HPrimitiveType(PC.STRING)
    if shape == "list":
        return HListType(HPrimitiveType(PC.STRING))
    if shape == "map":
        return HMapType(HPrimitiveType(PC.STRING), HPrimitiveType(PC.LONG))
    if shape == "struct":
        return HStructType([cx.str("inner", 1, 1, IDENT)], [HPrimitiveType(PC.BOOLEAN)])
    return HPrimitiveType(PC.VOID)


def plain(x):
    """a value with the objects of libraries taken apart"""
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [type(x).__name__] + [plain(getattr(x, f.name)) for f in dataclasses.fields(x)]
    if isinstance(x, enum.Enum):
        return x.name
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return x


def convert(struct, fmt):
    if fmt == "avro":
        return AvroConverter().from_recap(struct)
    if fmt == "json":
        return JSONSchemaConverter().from_recap(struct)
    if fmt == "recap":
        return to_dict(struct)
    return Generator().generate(ProtobufConverter().from_recap(struct))


def same_output(a, b):
    if PROTO is not None and isinstance(a, str) and isinstance(b, str) and a.startswith("proto ") and b.startswith("proto "):
        return deep_eq(plain(PROTO[int(a[6:])]), plain(PROTO[int(b[6:])]))
    return deep_eq(plain(a), plain(b))


def cli(cx, command, target, fmt=None):
    """('ok', what is printed) or ('err', ...) of a run of the command line"""
    global OUT
    if not cx.symbolic:
        from typer.testing import CliRunner

        args = [command] + ([target] if target is not None else []) + (["--output-format", fmt] if fmt is not None else [])
        r = CliRunner().invoke(recap.cli.app, args)
        if r.exit_code != 0:
            return ("err", type(r.exception).__name__)
        try:
            return ("ok", json.loads(r.stdout))
        except ValueError:
            return ("ok", r.stdout[:-1] if r.stdout.endswith("\n") else r.stdout)
    fn = None
    for c in recap.cli.app.registered_commands:
        if (c.name or c.callback.__name__) == command:
            fn = c.callback
    kw = {}
    for p in inspect.signature(fn, eval_str=True).parameters.values():
        info = [type(x).__name__ for x in getattr(p.annotation, "__metadata__", ())] + [type(p.default).__name__]
        if "ArgumentInfo" in info:
            if target is not None:
                kw[p.name] = target
        elif "OptionInfo" in info and fmt is not None:
            kw[p.name] = M.SchemaFormat(fmt)
    OUT = []
    models.PRINT = _echo
    try:
        r = attempt(fn, **kw)
        if r[0] == "err":
            return r
        if not OUT:
            return ("ok", "")
        how, v = OUT[0]
        # rich folds lines that are longer than the terminal
        return ("ok", v if how != "rich" or not LONG else None) if len(OUT) == 1 else ("err", "several outputs")
    finally:
        OUT = None
        models.PRINT = None


def gateway_schema(cx, target, ctype):
    got = ask(cx, "GET", "/gateway/schema/{}", (target,), ctype, b"", gateway.router)
    return ("ok", got[1]) if got[0] == 200 else ("err", got[0])


def gateway_ls(cx, target):
    got = ask(cx, "GET", "/gateway/ls/{}", (target or "",), None, b"", gateway.router)
    return ("ok", got[1]) if got[0] == 200 else ("err", got[0])


def system(cx, shapes):
    cols = []
    for i, s in enumerate(shapes):
        cols.append(HColumn(cx.str("column", 1, 1, IDENT) + str(i), column(cx, s), cx.str("comment", 1, 1, ((32, 126),)) if cx.bool("commented") else None))
    name = cx.str("table", 1, 1, IDENT)
    return name, Hms([("d", name, table(name, cols)), ("d", "other", table("other", [HColumn("z", HPrimitiveType(PC.DOUBLE), None)]))], {})


AVROS = {"int": "int", "long": "int", "string": "string", "list": {"type": "array", "items": "long"}, "map": {"type": "map", "values": "boolean"}, "enum": {"type": "enum", "name": "n.E", "symbols": ["A", "B"]}}


def registry(cx, shapes):
    """a named record, which every format can express"""
    fields = []
    for i, s in enumerate(shapes):
        f = {"name": cx.str("column", 1, 1, IDENT) + str(i) + ("x" * 90 if s == "long" else ""), "type": AVROS[s]}
        if cx.bool("commented"):
            f["doc"] = cx.str("comment", 1, 1, ((32, 126),))
        fields.append(f)
    name = cx.str("table", 1, 1, IDENT)
    return name, U.Registry([(name + "-value", json.dumps({"type": "record", "name": "n.R", "fields": fields}), "AVRO")])


def location(cx, how, scheme="thrift+hms"):
    """-> (settings URLs, request URL without path)"""
    host, port = cx.str("host", 1, 1, LOWER), 9083
    conf = U.url(scheme, host, port)
    req = dict(conf)
    if how == "other host":
        req["host"] = cx.str("requested host", 1, 1, LOWER)
        cx.assume(neg(req["host"] == host))
    if how == "other port":
        req["port"] = 9084
    return ([] if how == "nothing" else [conf]), U.text(req)


def schemas(cx, via, shapes, where="configured", source="hive", fmts=("avro", "json", "protobuf", "recap")):
    """every front end gives what the converter of the format writes"""
    global PROTO, LONG
    LONG = "long" in shapes
    if source == "hive":
        name, answer = system(cx, shapes)
        conf, base = location(cx, where)
        target = base + "/d/" + name
    else:
        name, answer = registry(cx, shapes)
        conf, base = location(cx, where, "https+csr")
        target = base + "/" + name
    fmt = cx.choose("format", fmts)
    U.configure(cx, conf)
    U.NET = U.Net(answer)
    PROTO = [] if cx.symbolic else None
    try:
        given = cx.bool("format given") if fmt == "recap" else True
        if via == "command":
            got = attempt(M.schema, target, M.SchemaFormat(fmt)) if given else attempt(M.schema, target)
        elif via == "lenient":
            got = attempt(M.schema, target, M.SchemaFormat(fmt), strict=False)
        elif via == "cli":
            got = cli(cx, "schema", target, fmt if given else None)
        else:
            got = gateway_schema(cx, target, TYPES[fmt] if given else None)
        calls = U.NET.calls
        if where != "configured" and via in ("command", "http"):
            cx.check(got[0] == "err", "a URL that is not configured is answered")
            cx.check(calls == [], "a server that is not configured is contacted")
            cx.cover("refused")
            return
        cx.check(len(calls) == 1, "not one connection")
        if source == "hive":
            struct = HiveMetastoreClient(answer).schema("d", name)
        else:
            struct = AvroConverter().to_recap(answer.subjects[0][1])
        want = attempt(convert, struct, fmt)
        if want[0] == "err":
            cx.check(got[0] == "err", "a schema that cannot be written is answered")
            cx.cover("unwritable")
            return
        cx.check(got[0] == "ok", "the schema is not answered: " + why(got) if got[0] == "ok" or isinstance(got[1], str) else "the schema is answered with status " + str(got[1]))
        cx.check(same_output(got[1], want[1]), "the answer is not the schema in the format " + fmt)
        cx.observe("format", fmt)
        cx.cover(via + " " + fmt)
    finally:
        U.NET = None
        PROTO = None


def listing(cx, via, nseg, where="configured"):
    name, answer = system(cx, ["int"])
    conf, base = location(cx, where)
    U.configure(cx, conf)
    U.NET = U.Net(answer)
    d = cx.str("database", 1, 1, ((97, 101),))
    target = None if nseg is None else base + "/" + d if nseg else base
    try:
        if via == "command":
            got = attempt(M.ls, target)
        elif via == "lenient":
            got = attempt(M.ls, target, strict=False)
        elif via == "cli":
            got = cli(cx, "ls", target)
        else:
            got = gateway_ls(cx, target)
        calls = U.NET.calls
    finally:
        U.NET = None
    if nseg is None:
        want = [U.text(u, True) for u in conf]
        cx.check(calls == [], "listing the roots contacts a server")
    elif where != "configured" and via in ("command", "http"):
        cx.check(got[0] == "err", "a URL that is not configured is answered")
        cx.check(calls == [], "a server that is not configured is contacted")
        cx.cover("refused")
        return
    elif nseg == 0:
        want = ["d"]
    else:
        want = [name, "other"] if d == "d" else []
    cx.check(got[0] == "ok", "the children are not answered")
    out = got[1]
    if via == "cli" and want == []:
        cx.check(out == "" or out == [], "something is printed although there are no children")
    else:
        cx.check(deep_eq(list(out), want), "the answer is not the children of the URL")
    cx.cover("ls " + via)


NEAR = ("application/json", "text/plain", "application/avro", "application/schema+jso", "application/schema+json2", "application/x-recap", "application/protobuf", "avro", "json", "recap", "application/Avro+json ", "*/*")


def content_types(cx, kind, n=3):
    """content types the gateway does not know"""
    name, answer = system(cx, ["int"])
    conf, base = location(cx, "configured")
    U.configure(cx, conf)
    U.NET = U.Net(answer)
    ctype = cx.choose("type", NEAR) if kind == "near" else cx.str("type", 1, n, ((33, 126),))
    try:
        got = gateway_schema(cx, base + "/d/" + name, ctype)
        cx.check(got[0] == "err" and got[1] == 415, "an unknown content type is answered with " + str(got[1] if got[0] == "err" else 200))
        cx.check(U.NET.calls == [], "a server is contacted for an unknown content type")
    finally:
        U.NET = None
    cx.cover("unknown type")
