"""registry storage and its HTTP API (C23-C26)

In symbolic runs the storage URL names a filesystem whose tree holds symbolic
names and contents (StubFS); natively it is fsspec's own local filesystem (with
the same fault points around it) or fsspec's memory filesystem."""

import asyncio
import inspect
import itertools
import json
import os
import re
import shutil
import tempfile

import fsspec
from fastapi import HTTPException, Request
from fsspec.implementations.local import LocalFileOpener, LocalFileSystem
from fsspec.spec import AbstractFileSystem

from pydantic import AnyUrl

import recap.server.registry as server
import recap.types as T
from props.lib import all_of, any_of, attempt, deep_eq, freeze, neg, norm, why
from recap.storage.registry import RegistryStorage

LOOP = asyncio.new_event_loop()
SCRATCH = os.environ.get("SYMX_SCRATCH") or tempfile.gettempdir()
NAMECH = ((32, 126), (160, 255), (0x2500, 0x25FF), (0x1F600, 0x1F64F))
ASCII = ((32, 126),)


class Crash(BaseException):
    """the process ends here; nothing it would have done later happens"""


class World:
    """the filesystem behind the storage, and one scheduled fault"""

    cur = None

    def __init__(self, cx, backend):
        self.cx, self.backend = cx, backend
        self.sym = cx.symbolic
        self.tree = [[["srv"], None], [["srv", "reg"], None], [["srv", "other.json"], "{}"]]
        self.plan, self.dead, self.how = None, False, None
        self.fired, self.backwards = False, None
        World.cur = self
        if self.sym:
            self.url = "symfs:///srv/reg"
        elif backend == "memory":
            fs = fsspec.filesystem("memory")
            fs.store.clear()
            fs.pseudo_dirs[:] = [""]
            self.url = "memory://srv/reg"
        else:
            self.base = os.path.join(SCRATCH, "srv")
            shutil.rmtree(self.base, ignore_errors=True)
            os.makedirs(os.path.join(self.base, "reg"))
            with open(os.path.join(self.base, "other.json"), "w") as f:
                f.write("{}")
            tempfile.tempdir = os.path.join(SCRATCH, "tmp")
            os.makedirs(tempfile.tempdir, exist_ok=True)
            self.url = ("faultfs://" if backend == "fault" else "file://") + os.path.join(self.base, "reg")

    def storage(self):
        return RegistryStorage(self.url)

    def outside(self):
        """what lies outside the storage root"""
        if self.sym:
            return [[p, c] for p, c in self.tree if not inside(p)]
        if self.backend == "memory":
            return None
        found = []
        for d, _, fs in os.walk(self.base):
            rel = os.path.relpath(d, self.base).split("/")
            if rel[0] != "reg":
                for f in fs:
                    with open(os.path.join(d, f)) as h:
                        found.append([(["srv"] if rel == ["."] else ["srv"] + rel) + [f], h.read()])
        return [[["srv"], None]] + found

    # faults
    def arm(self, kind, count, how, callback=None):
        self.plan, self.how, self.callback, self.fired = [kind, count], how, callback, False

    def disarm(self):
        self.plan, self.dead = None, False

    def step(self, kind):
        """True if a fault damages what this step does"""
        if self.dead:
            raise Crash()
        if self.plan is None or self.plan[0] != kind:
            return False
        if self.plan[1] > 0:
            self.plan[1] -= 1
            return False
        self.plan, self.fired = None, True
        if self.how == "read":
            self.callback()
            return False
        return True

    def fail(self):
        if self.how == "crash":
            self.dead = True
            raise Crash()
        raise OSError(28, "No space left on device")

    # the tree (symbolic runs)
    def find(self, parts):
        for e in self.tree:
            if len(e[0]) == len(parts) and bool(deep_eq(e[0], parts)):
                return e
        return None

    def set(self, parts, content):
        up = self.find(parts[:-1])
        if up is None:
            raise FileNotFoundError(2, "No such file or directory")
        if up[1] is not None:
            raise NotADirectoryError(20, "Not a directory")
        e = self.find(parts)
        if e is None:
            self.tree.append([parts, content])
        elif e[1] is None:
            raise IsADirectoryError(21, "Is a directory")
        else:
            e[1] = content


def inside(p):
    return len(p) >= 2 and bool(p[0] == "srv") and bool(p[1] == "reg")


def split(path):
    out = []
    for seg in path.split("/"):
        if seg == "" or seg == ".":
            continue
        if seg == "..":
            if out:
                out.pop()
        else:
            out.append(seg)
    return out


def split_memory(path):
    return [seg for seg in path.split("/") if not (seg == "")]


def glue(parts):
    s = ""
    for p in parts:
        s = s + "/" + p
    return s


class StubFS(AbstractFileSystem):
    protocol = "symfs"
    cachable = False
    root_marker = "/"

    @classmethod
    def _strip_protocol(cls, path):
        if type(path) is str and path.startswith("symfs://"):
            path = path[len("symfs://") :]
        return path

    @property
    def w(self):
        return World.cur

    def parts(self, path):
        path = self._strip_protocol(path)
        return split_memory(path) if self.w.backend == "memory" else split(path)

    def mkdirs(self, path, exist_ok=False):
        self.makedirs(path, exist_ok)

    def makedirs(self, path, exist_ok=False):
        if self.w.step("mkdirs"):
            self.w.fail()
        parts = self.parts(path)
        e = self.w.find(parts)
        if e is not None:
            if not exist_ok or e[1] is not None:
                raise FileExistsError(17, "File exists")
            return
        for n in range(1, len(parts) + 1):
            e = self.w.find(parts[:n])
            if e is None:
                self.w.tree.append([parts[:n], None])
            elif e[1] is not None:
                raise NotADirectoryError(20, "Not a directory")

    def mkdir(self, path, create_parents=True, **k):
        self.makedirs(path, False)

    def ls(self, path, detail=None, **k):
        parts = self.parts(path)
        e = self.w.find(parts)
        if e is None:
            raise FileNotFoundError(2, "No such file or directory")
        if detail is None:
            detail = self.w.backend == "memory"
        out = []
        for p, c in self.w.tree:
            if len(p) == len(parts) + 1 and bool(deep_eq(p[:-1], parts)):
                out.append({"name": glue(p), "type": "directory" if c is None else "file"} if detail else glue(p))
        if len(out) > 1 and self.w.backend != "memory":
            # local directories are listed in any order
            if self.w.backwards is None:
                self.w.backwards = self.w.cx.bool("listed backwards")
            if self.w.backwards:
                out.reverse()
        return out

    listdir = ls

    def info(self, path, **k):
        e = self.w.find(self.parts(path))
        if e is None:
            raise FileNotFoundError(2, "No such file or directory")
        return {"name": glue(e[0]), "type": "directory" if e[1] is None else "file"}

    def exists(self, path, **k):
        return self.w.find(self.parts(path)) is not None

    def isdir(self, path):
        e = self.w.find(self.parts(path))
        return e is not None and e[1] is None

    def isfile(self, path):
        e = self.w.find(self.parts(path))
        return e is not None and e[1] is not None

    def find(self, path, maxdepth=None, withdirs=False, detail=False, **k):
        parts = self.parts(path)
        return [glue(p) for p, c in self.w.tree if len(p) > len(parts) and c is not None and bool(deep_eq(p[: len(parts)], parts))]

    def rm_file(self, path):
        if self.w.step("rm"):
            self.w.fail()
        e = self.w.find(self.parts(path))
        if e is None:
            raise FileNotFoundError(2, "No such file or directory")
        self.w.tree = [x for x in self.w.tree if x is not e]

    def rm(self, path, recursive=False, maxdepth=None):
        self.rm_file(path)

    def mv(self, path1, path2, **k):
        if self.w.step("mv"):
            self.w.fail()
        e = self.w.find(self.parts(path1))
        if e is None:
            raise FileNotFoundError(2, "No such file or directory")
        self.w.set(self.parts(path2), e[1])
        self.w.tree = [x for x in self.w.tree if x is not e]

    move = rename = mv_file = mv

    def open(self, path, mode="rb", **k):
        parts = self.parts(path)
        if "r" in mode:
            e = self.w.find(parts)
            if e is None:
                raise FileNotFoundError(2, "No such file or directory")
            if e[1] is None:
                raise IsADirectoryError(21, "Is a directory")
            return StubReader(e[1], "b" in mode)
        ac = k.get("autocommit", not self._intrans)
        f = StubWriter(self.w, parts, ac, "x" in mode)
        if not ac:
            self.transaction.files.append(f)
        return f

    def touch(self, path, truncate=True, **k):
        with self.open(path, "wb"):
            pass

    def pipe_file(self, path, value, **k):
        with self.open(path, "wb") as f:
            f.write(value)

    pipe = write_bytes = pipe_file

    def write_text(self, path, value, **k):
        with self.open(path, "w") as f:
            f.write(value)

    def cat_file(self, path, **k):
        with self.open(path, "rb") as f:
            return f.read()

    cat = read_bytes = cat_file

    def read_text(self, path, **k):
        with self.open(path, "r") as f:
            return f.read()


class StubReader:
    def __init__(self, content, binary):
        self.content, self.binary = content, binary

    def read(self):
        return self.content.encode() if self.binary else self.content

    def close(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None


class StubWriter:
    def __init__(self, w, parts, autocommit, exclusive):
        self.w, self.parts, self.autocommit = w, parts, autocommit
        self.closed = False
        self.data = ""
        if w.step("open"):
            w.fail()
        if exclusive and w.find(parts) is not None:
            raise FileExistsError(17, "File exists")
        if autocommit:
            w.set(parts, "")

    def write(self, data):
        if self.w.step("write"):
            self.w.fail()
        if isinstance(data, bytes):
            data = data.decode()
        if self.data == "":
            self.data = data
        elif not (isinstance(data, str) and data.strip() == ""):
            self.data = self.data + data

    def flush(self):
        return None

    def close(self):
        if self.closed or self.w.dead:
            return
        self.closed = True
        bad = self.w.step("close")
        if self.autocommit:
            self.w.set(self.parts, "{" if bad else self.data)
        if bad:
            self.w.fail()

    def commit(self):
        if self.w.step("commit"):
            self.w.fail()
        self.w.set(self.parts, self.data)

    def discard(self):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FaultFS(LocalFileSystem):
    """fsspec's local filesystem with fault points"""

    protocol = "faultfs"
    cachable = False

    @classmethod
    def _strip_protocol(cls, path):
        path = str(path)
        if path.startswith("faultfs://"):
            path = path[len("faultfs://") :]
        return LocalFileSystem._strip_protocol(path)

    def makedirs(self, path, exist_ok=False):
        if World.cur.step("mkdirs"):
            World.cur.fail()
        return super().makedirs(path, exist_ok)

    def mkdir(self, path, create_parents=True, **k):
        if World.cur.step("mkdirs"):
            World.cur.fail()
        return super().mkdir(path, create_parents, **k)

    def rm_file(self, path):
        if World.cur.step("rm"):
            World.cur.fail()
        return super().rm_file(path)

    def rm(self, path, *a, **k):
        if World.cur.step("rm"):
            World.cur.fail()
        return super().rm(path, *a, **k)

    def mv_file(self, *a, **k):
        if World.cur.step("mv"):
            World.cur.fail()
        return super().mv_file(*a, **k)

    def _open(self, path, mode="rb", block_size=None, **kwargs):
        path = self._strip_protocol(path)
        return FaultOpener(path, mode, fs=self, **kwargs)


class FaultOpener(LocalFileOpener):
    def __init__(self, path, mode, **k):
        self.writes = "r" not in mode
        self.done = True
        if self.writes and World.cur.step("open"):
            World.cur.fail()
        super().__init__(path, mode, **k)
        self.done = False

    def write(self, *a, **k):
        if World.cur.step("write"):
            World.cur.fail()
        return super().write(*a, **k)

    def close(self):
        if not self.writes or self.done:
            return super().close()
        self.done = True
        if World.cur.dead:
            return super().close()
        bad = World.cur.step("close")
        if bad:
            self.f.flush()
            self.f.truncate(max(0, self.f.tell() - 1))
            super().close()
            World.cur.fail()
        return super().close()

    def commit(self):
        if World.cur.step("commit"):
            World.cur.fail()
        return super().commit()


fsspec.register_implementation("symfs", StubFS, clobber=True)
fsspec.register_implementation("faultfs", FaultFS, clobber=True)


# --------------------------------------------------------------------------
# what was stored


class Model:
    """[name, [[version, type]]] in order of first use"""

    def __init__(self):
        self.names = []

    def entry(self, name):
        for e in self.names:
            if bool(e[0] == name):
                return e
        return None

    def versions(self, name):
        e = self.entry(name)
        return sorted([v for v, _ in e[1]]) if e else None

    def next(self, name):
        vs = self.versions(name)
        return vs[-1] + 1 if vs else 1

    def has(self, name, version):
        e = self.entry(name)
        return e is not None and any(bool(v == version) for v, _ in e[1])

    def put(self, name, version, typ):
        e = self.entry(name)
        if e is None:
            e = [name, []]
            self.names.append(e)
        for x in e[1]:
            if bool(x[0] == version):
                x[1] = typ
                return
        e[1].append([version, typ])


def a_type(cx, kind):
    """a type with symbolic documentation, so that two stored types can be told apart"""
    doc = cx.str("doc", 1, 1, ((32, 126),))
    if kind == "int":
        return T.IntType(bits=24, doc=doc)
    if kind == "struct":
        return T.StructType(fields=[T.IntType(bits=24, name="f"), T.UnionType([T.NullType(), T.StringType(bytes_=20, variable=True)], name="g", default=None)], doc=doc)
    return T.ListType(T.FloatType(bits=32), length=7, variable=False, alias="a.b", doc=doc)


def same(got, typ, version):
    return isinstance(got, tuple) and len(got) == 2 and all_of(deep_eq(norm(got[0]), norm(typ)), got[1] == version)


def check_all(cx, st, model, when):
    """everything a reader can ask for is what was stored"""
    ls = attempt(st.ls)
    cx.check(ls[0] == "ok", when + ": ls fails: " + why(ls))
    cx.check(deep_eq(list(ls[1]), sorted([e[0] for e in model.names])), when + ": ls does not list exactly the stored names in order")
    for name, stored in model.names:
        vs = attempt(st.versions, name)
        cx.check(vs[0] == "ok", when + ": versions fails: " + why(vs))
        want = sorted([v for v, _ in stored])
        cx.check(deep_eq(vs[1], want), when + ": versions does not list exactly the stored versions")
        cx.check(deep_eq(attempt(st.latest, name), ("ok", want[-1])), when + ": latest is not the highest version")
        for v, typ in stored:
            got = attempt(st.get, name, v)
            cx.check(got[0] == "ok", when + ": a stored version cannot be read: " + why(got))
            cx.check(same(got[1], typ, v), when + ": a version does not read as what was stored")
            if v == want[-1]:
                got = attempt(st.get, name)
                cx.check(got[0] == "ok", when + ": the latest version cannot be read: " + why(got))
                cx.check(same(got[1], typ, v), when + ": the latest version is not the highest one")


def check_missing(cx, st, model, name, version):
    e = model.entry(name)
    if e is None:
        for f in (st.get, st.versions, st.latest):
            got = attempt(f, name)
            cx.check(got[0] == "ok" and got[1] is None, "a name that was never stored is found: " + why(got))
    if not model.has(name, version):
        got = attempt(st.get, name, version)
        cx.check(got[0] == "ok" and got[1] is None, "a version that was never stored is found: " + why(got))
        cx.cover("missing")


# different names that are equal after case folding or a Unicode normalisation,
# or that escape to similar text
ALIKE = (
    ("e\u0301", "\u00e9"),
    ("\u00c5", "\u212b"),
    ("\ufb01", "fi"),
    ("\u212a", "K"),
    ("K", "k"),
    ("\u00df", "ss"),
    ("\u0130", "i\u0307"),
    ("\u00b5", "\u03bc"),
    ("a\u0323\u0307", "a\u0307\u0323"),
    ("%E9", "\u00e9"),
    ("a ", "a"),
    ("a\u200b", "a"),
    ("\uff0e\uff0e", ".."),
    ("\uff0f", "/"),
    ("a\n", "a"),
    ("con", "CON"),
)


def history(cx, ops, n, backend, chars="all", kinds=("int",), vmax=120, probe=True, reopen=False, shared=False, listed=False, long=0):
    """ops: "new" (next version) or "at" (given version), each of a symbolic name;
    shared: through either of two storages opened before; listed: names that
    some normalisation would make equal"""
    w = World(cx, backend)
    ranges = NAMECH if chars == "all" else tuple(tuple(r) for r in chars)
    st = w.storage()
    stores = [st, w.storage()] if shared else [st]
    pair = cx.choose("pair", ALIKE) if listed else ()
    before = w.outside()
    model = Model()
    for i, op in enumerate(ops):
        name = pair[i] if listed else "n" * long + cx.str("name", 1, n, ranges)
        if shared:
            st = stores[cx.choose("storage", (0, 1))]
        typ = a_type(cx, kinds[i % len(kinds)])
        copy = norm(typ, False)
        if op == "new":
            want = model.next(name)
            got = attempt(st.put, name, typ)
        else:
            want = cx.int("version", 0, vmax)
            got = attempt(st.put, name, typ, want)
        cx.check(got[0] == "ok", "put fails: " + why(got))
        cx.check(got[1] == want, "put stores another version than the next or given one")
        cx.check(deep_eq(copy, norm(typ, False)), "put changes the type")
        model.put(name, want, typ)
        if i < len(ops) - 1:
            got = attempt(st.get, name)
            cx.check(got[0] == "ok" and got[1] is not None, "after a put: nothing can be read: " + why(got))
            for other in stores:
                cx.check(deep_eq(attempt(other.latest, name), ("ok", model.versions(name)[-1])), "after a put: another version than the highest is the latest")
            cx.check(deep_eq(attempt(st.versions, name), ("ok", model.versions(name))), "after a put: versions does not list exactly the stored versions")
    for st in stores:
        check_all(cx, st, model, "after a put")
    if reopen:
        check_all(cx, w.storage(), model, "reopened")
    if probe:
        check_missing(cx, st, model, cx.str("other", 1, n, ranges), cx.int("version", 0, vmax))
    cx.check(deep_eq(w.outside(), before), "something outside the storage root was changed")
    cx.observe("ls", st.ls())
    cx.cover("end")
    if len(model.names) < len(ops):
        cx.cover("same name")


# --------------------------------------------------------------------------
# C25 faults

POINTS = ("mkdirs", "open", "write", "close", "commit", "mv", "rm")


def fault(cx, how, before, op, kind="struct"):
    """one put interrupted at any of its steps, after `before` earlier puts"""
    w = World(cx, "fault")
    st = w.storage()
    model = Model()
    names = [cx.str("name", 1, 1, ((97, 122), (65, 90))) for _ in range(before + 1)]
    for i in range(before):
        earlier = a_type(cx, "int")
        model.put(names[i], st.put(names[i], earlier), earlier)
    name = names[-1]
    typ = a_type(cx, kind)
    if kind == "bad":
        typ = T.IntType(bits=32, name="x", default=b"x")
    elif kind == "unknown":
        typ = T.RecapType("other", name="x")
    bad = kind in ("bad", "unknown")
    version = None if op == "new" else cx.int("version", 0, 3)
    want = model.next(name) if version is None else version
    known = Model()
    for nm, vs in model.names:
        for v, t in vs:
            known.put(nm, v, t)
    known.put(name, want, typ)
    seen = []

    def reader():
        seen.append(consistent(cx, w.storage(), model, known, name, want, "read during a put"))

    if how != "none":
        w.arm(cx.choose("point", POINTS), cx.choose("occurrence", (0, 1)), how, reader)
    try:
        got = attempt(st.put, name, typ, version) if version is not None else attempt(st.put, name, typ)
    except Crash:
        got = ("err", "Crash")
    fired = w.fired
    w.disarm()
    if got[0] == "ok":
        cx.check(got[1] == want, "put returns another version than the one stored")
        cx.check(how != "error" or not fired, "put reports success although writing failed")
        model = known
        check_all(cx, w.storage(), model, "after a put")
        cx.cover("stored")
    else:
        cx.check(fired or bad, "put fails: " + why(got))
        r = consistent(cx, w.storage(), model, known, name, want, "after an interrupted put")
        if how == "error" or bad:
            cx.check(not r, "a put that failed with an error was stored nevertheless")
        if bad and not fired:
            # nothing was wrong with the file system: no trace is left of the name
            ls = attempt(w.storage().ls)
            cx.check(ls[0] == "ok" and len(ls[1]) == len(model.names), "a put of a type that cannot be stored changes the listing")
        model = known if r else model
        cx.cover("interrupted")
    # and the storage can still be used
    again = a_type(cx, "int")
    st2 = w.storage()
    nxt = model.next(name)
    got = attempt(st2.put, name, again)
    cx.check(got[0] == "ok", "nothing can be stored after an interrupted put: " + why(got))
    cx.check(got[1] == nxt, "the version after an interrupted put is not the next one")
    model.put(name, nxt, again)
    check_all(cx, st2, model, "after an interrupted put")
    cx.cover("end")


def consistent(cx, st, old, new, name, version, when):
    """a reader sees either the old state or the new one; True for the new"""
    got = attempt(st.get, name, version)
    cx.check(got[0] == "ok", when + ": a version cannot be read: " + why(got))
    is_new = got[1] is not None and bool(same(got[1], new_type(new, name, version), version))
    if got[1] is not None and not is_new:
        cx.check(old.has(name, version), when + ": a version reads as something that was never stored")
    state = new if is_new else old
    for nm, vs in state.names:
        for v, t in vs:
            g = attempt(st.get, nm, v)
            cx.check(g[0] == "ok", when + ": a stored version cannot be read: " + why(g))
            cx.check(same(g[1], t, v), when + ": a stored version changed")
        want = sorted([v for v, _ in vs])
        g = attempt(st.versions, nm)
        cx.check(g[0] == "ok", when + ": versions fails: " + why(g))
        cx.check(deep_eq(g[1], want), when + ": versions lists a version that is not stored")
        g = attempt(st.get, nm)
        cx.check(g[0] == "ok", when + ": the latest version cannot be read: " + why(g))
        cx.check(g[1] is not None and g[1][1] == want[-1], when + ": the latest version is another one")
    if state.entry(name) is None:
        g = attempt(st.get, name)
        cx.check(g[0] == "ok" and g[1] is None, when + ": a name without versions cannot be read: " + why(g))
        g = attempt(st.versions, name)
        cx.check(g[0] == "ok" and not g[1], when + ": a name without versions has versions")
    g = attempt(st.ls)
    cx.check(g[0] == "ok", when + ": ls fails: " + why(g))
    for nm, _ in state.names:
        cx.check(any_of(*[nm == x for x in g[1]]), when + ": ls misses a name")
    return is_new


def new_type(model, name, version):
    for v, t in model.entry(name)[1]:
        if bool(v == version):
            return t


# --------------------------------------------------------------------------
# C26 the HTTP API

TYPE = "application/x-recap+json"


class Gate:
    """a request body that arrives when the schedule says so"""

    def __init__(self):
        self.open = False
        self.waiting = None

    async def wait(self):
        if not self.open:
            self.waiting = asyncio.get_running_loop().create_future()
            await self.waiting

    def release(self):
        self.open = True
        if self.waiting is not None and not self.waiting.done():
            self.waiting.set_result(None)


class Headers:
    def __init__(self, ctype):
        self.d = {} if ctype is None else {"content-type": ctype}

    def get(self, key, default=None):
        return self.d.get(key.lower(), default)

    def __getitem__(self, key):
        return self.d[key.lower()]

    def __contains__(self, key):
        return key.lower() in self.d


class Req:
    """the parts of a starlette request the handlers read"""

    def __init__(self, method, ctype, body):
        self.method, self.headers, self.data = method, Headers(ctype), body
        self.gate = Gate()
        self.gate.open = True

    async def body(self):
        await self.gate.wait()
        return self.data

    async def json(self):
        return json.loads(await self.body())

    async def stream(self):
        await self.gate.wait()
        yield self.data
        yield b""


def endpoint(method, shape, router=None):
    for r in (router or server.router).routes:
        names = [p.strip("{}").split(":")[0] for p in re.findall(r"{[^}]*}", r.path)]
        if method in r.methods and re.sub(r"{[^}]*}", "{}", r.path) == shape:
            return r.endpoint, names
    raise AssertionError("no route " + method + " " + shape)


def storage_of():
    dep = server.get_storage
    return dep()


def start(method, shape, args, req, router=None):
    """the coroutine FastAPI runs for the request"""
    fn, names = endpoint(method, shape, router)
    kw = dict(zip(names, args))
    for p in inspect.signature(fn, eval_str=True).parameters.values():
        if p.name in kw:
            continue
        ann, default = p.annotation, p.default
        for m in getattr(ann, "__metadata__", ()):
            if hasattr(m, "dependency"):
                default = m
        if hasattr(default, "dependency"):
            kw[p.name] = default.dependency()
        elif isinstance(ann, type) and issubclass(ann, Request):
            kw[p.name] = req
    return fn(**kw)


async def outcome(coro):
    """[status, value] of a request"""
    try:
        v = await coro
        return [200, list(v) if isinstance(v, tuple) else v]
    except HTTPException as e:
        return [e.status_code, None]
    except Exception as e:
        return [500, type(e).__name__]


def ask(cx, method, shape, args=(), ctype=TYPE, body=b"", router=None):
    """one request, alone"""
    if cx.symbolic:
        return LOOP.run_until_complete(outcome(start(method, shape, args, Req(method, ctype, body), router)))
    path = shape
    for a in args:
        path = path.replace("{}", str(a).replace("{}", "\0"), 1)
    return LOOP.run_until_complete(asgi(method, path.replace("\0", "{}"), ctype, body))


async def asgi(method, path, ctype, body):
    """the whole application, as a server calls it"""
    from recap.server.app import app

    sent = []
    todo = [{"type": "http.request", "body": body, "more_body": False}]

    async def receive():
        return todo.pop(0) if todo else {"type": "http.disconnect"}

    async def send(m):
        sent.append(m)

    scope = {
        "type": "http",
        "asgi": {"version": "3.0"},
        "http_version": "1.1",
        "method": method,
        "scheme": "http",
        "path": path,
        "raw_path": path.encode(),
        "query_string": b"",
        "root_path": "",
        "headers": [] if ctype is None else [(b"content-type", ctype.encode())],
        "client": ("127.0.0.1", 1),
        "server": ("127.0.0.1", 80),
    }
    try:
        await app(scope, receive, send)
    except Exception as e:
        return [500, type(e).__name__]
    status = sent[0]["status"]
    data = b"".join(m.get("body", b"") for m in sent[1:])
    if status == 200:
        return [200, json.loads(data)]
    return [status, None]


def web(cx):
    w = World(cx, "local")
    server.settings.registry_storage_url = AnyUrl(w.url)
    return w


def body_of(cx, kind, typ):
    """-> (content type, body)"""
    if kind == "alias":
        return TYPE, b"int32"
    if kind == "quoted":
        return None, b'"int32"'
    if kind == "missing":
        return TYPE, b'{"type": "list"}'
    if kind == "sizes":
        return TYPE, json.dumps({"type": "int", "bits": cx.int("bits", -2, 0)}).encode()
    if kind == "binary":
        return TYPE, b"\xff\xfe"
    if kind == "number":
        return TYPE, b"5"
    data = json.dumps(T.to_dict(typ)).encode()
    if kind == "type":
        return cx.str("content type", 0, 3, ASCII), data
    if kind == "plain":
        return cx.choose("content type", ("application/json", "text/plain", "application/x-recap+jso", "application/x-recap+json2", "application/schema+json", "application/x-protobuf")), data
    return cx.choose("content type", (TYPE, None)), data


REJECT = {"missing": 400, "sizes": 400, "binary": 400, "number": 400, "type": 415, "plain": 415}


def http_all(cx, model, when):
    got = ask(cx, "GET", "/registry/")
    cx.check(got[0] == 200 and deep_eq(got[1], sorted([e[0] for e in model.names])), when + ": the registry does not list exactly the stored names")
    for name, stored in model.names:
        want = sorted([v for v, _ in stored])
        got = ask(cx, "GET", "/registry/{}/versions", (name,))
        cx.check(got[0] == 200 and deep_eq(got[1], want), when + ": the registry does not list exactly the stored versions")
        for v, typ in stored:
            got = ask(cx, "GET", "/registry/{}/versions/{}", (name, v))
            cx.check(got[0] == 200, when + ": a stored version cannot be read: " + str(got[0]))
            cx.check(same((T.from_dict(got[1][0]), got[1][1]), typ, v), when + ": a version does not read as what was stored")
            if v == want[-1]:
                got = ask(cx, "GET", "/registry/{}", (name,))
                cx.check(got[0] == 200, when + ": the latest version cannot be read: " + str(got[0]))
                cx.check(same((T.from_dict(got[1][0]), got[1][1]), typ, v), when + ": the latest version is not the highest one")


def http_history(cx, ops, chars=((97, 98), (65, 65)), n=1, vmax=12, probe=True):
    """ops: [[method, kind of body]], each of a symbolic name (and version)"""
    web(cx)
    ranges = tuple(tuple(r) for r in chars)
    model = Model()
    for method, kind in ops:
        name = cx.str("name", 1, n, ranges)
        typ = T.IntType(bits=32) if kind in ("alias", "quoted") else a_type(cx, "struct" if kind == "struct" else "int")
        ctype, body = body_of(cx, kind, typ)
        args, shape = (name,), "/registry/{}"
        want = None
        if method == "PUT":
            want = cx.int("version", 0, vmax)
            args, shape = (name, want), "/registry/{}/versions/{}"
        if kind == "type":
            cx.assume(neg(ctype == ""))  # the same as none
        got = ask(cx, method, shape, args, ctype, body)
        if kind in REJECT:
            ok = got[0] == REJECT[kind] or (method == "PUT" and got[0] == 409 and model.has(name, want))
            cx.check(ok, "a " + kind + " body is answered with " + str(got[0]))
            cx.cover("rejected")
        elif method == "PUT" and model.has(name, want):
            cx.check(got[0] == 409, "storing an existing version is answered with " + str(got[0]))
            cx.cover("conflict")
        else:
            if want is None:
                want = model.next(name)
            cx.check(got[0] == 200, "a valid type is answered with " + str(got[0]))
            cx.check(deep_eq(got[1], want), "the answer is not the version stored")
            model.put(name, want, typ)
            cx.cover("stored")
    http_all(cx, model, "after the requests")
    if probe:
        name = cx.str("other", 1, n, ranges)
        version = cx.int("version", 0, vmax)
        if model.entry(name) is None:
            for shape in ("/registry/{}", "/registry/{}/versions"):
                got = ask(cx, "GET", shape, (name,))
                cx.check(got[0] == 404, "a name that was never stored is answered with " + str(got[0]))
        if not model.has(name, version):
            got = ask(cx, "GET", "/registry/{}/versions/{}", (name, version))
            cx.check(got[0] == 404, "a version that was never stored is answered with " + str(got[0]))
            cx.cover("missing")
    cx.cover("end")


def http_race(cx, methods, earlier, vmax=2):
    """requests of one process, suspended wherever they wait for their body"""
    web(cx)
    model = Model()
    names = ("a", "b")
    for _ in range(earlier):
        typ = a_type(cx, "int")
        model.put("a", storage_of().put("a", typ), typ)
    todo = []
    for m in methods:
        name = cx.choose("name", names) if todo else "a"
        typ = a_type(cx, "int")
        version = cx.int("version", 0, vmax) if m == "PUT" else None
        req = Req(m, TYPE, json.dumps(T.to_dict(typ)).encode())
        req.gate.open = False
        todo.append({"m": m, "name": name, "typ": typ, "version": version, "req": req, "state": 0, "task": None, "from": None, "to": None})
    clock = 0

    async def run():
        nonlocal clock
        for _ in range(2 * len(todo)):
            left = [i for i, t in enumerate(todo) if t["state"] < 2]
            i = cx.choose("step", left)
            t = todo[i]
            clock += 1
            if t["state"] == 0:
                args = (t["name"],) if t["version"] is None else (t["name"], t["version"])
                shape = "/registry/{}" if t["version"] is None else "/registry/{}/versions/{}"
                t["from"] = clock
                t["task"] = asyncio.ensure_future(outcome(start(t["m"], shape, args, t["req"])))
            else:
                t["req"].gate.release()
            t["state"] += 1
            for _ in range(12):
                await asyncio.sleep(0)
            for t in todo:
                if t["task"] is not None and t["to"] is None and t["task"].done():
                    t["to"] = clock
        return [await t["task"] for t in todo]

    got = LOOP.run_until_complete(run())
    # some order of the requests, one after the other, explains the answers
    for order in itertools.permutations(range(len(todo))):
        if any(todo[b]["to"] is not None and todo[b]["to"] < todo[a]["from"] for k, a in enumerate(order) for b in order[k + 1 :]):
            continue
        m = Model()
        for nm, vs in model.names:
            for v, t in vs:
                m.put(nm, v, t)
        ok = True
        for i in order:
            t = todo[i]
            v = m.next(t["name"]) if t["version"] is None else t["version"]
            if t["version"] is not None and m.has(t["name"], v):
                ok = got[i][0] == 409
            else:
                ok = got[i][0] == 200 and bool(got[i][1] == v)
                m.put(t["name"], v, t["typ"])
            if not ok:
                break
        if ok and bool(explains(storage_of(), m)):
            cx.cover("end")
            cx.observe("statuses", [g[0] for g in got])
            if any(g[0] == 409 for g in got):
                cx.cover("conflict")
            return
    cx.check(False, "the answers to concurrent requests do not fit any order of them, or a stored version was lost or overwritten")


def explains(st, m):
    if not deep_eq(list(st.ls()), sorted([e[0] for e in m.names])):
        return False
    for name, vs in m.names:
        if not deep_eq(st.versions(name), sorted([v for v, _ in vs])):
            return False
        for v, t in vs:
            g = st.get(name, v)
            if g is None or not same(g, t, v):
                return False
    return True
