"""Mutation trial: makes small changes to recap in private mount namespaces
(copies of /repo and /verif bound over them), keeps those the tests pass, runs
the checks and reports what no check notices.

usage: mutate.py OUT.jsonl [-j N] [file prefix...]   (resumes OUT.jsonl)
"""

import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

PROPS = {
    "recap/types.py": "C03 C04 C05 C06 C07 C02 C01",
    "recap/converters/avro.py": "C08 C09 C02",
    "recap/converters/json_schema.py": "C11 C10 C02",
    "recap/converters/protobuf.py": "C12 C13",
    "recap/converters/bigquery.py": "C18",
    "recap/converters/dbapi.py": "C15 C16",
    "recap/converters/mysql.py": "C16 C15",
    "recap/converters/snowflake.py": "C16 C15",
    "recap/converters/postgresql.py": "C16 C15 C27",
    "recap/converters/sqlite.py": "C17 C15",
    "recap/converters/hive_metastore.py": "C14",
    "recap/clients/__init__.py": "C22 C20 C21 C29",
    "recap/clients/bigquery.py": "C18 C22",
    "recap/clients/confluent_registry.py": "C28 C22",
    "recap/clients/dbapi.py": "C27 C22 C16 C15",
    "recap/clients/fs.py": "C28 C22",
    "recap/clients/hive_metastore.py": "C14 C22",
    "recap/clients/mysql.py": "C27 C22 C16",
    "recap/clients/postgresql.py": "C27 C22 C16",
    "recap/clients/snowflake.py": "C27 C22 C16",
    "recap/clients/sqlite.py": "C17 C22",
    "recap/settings.py": "C20 C21 C22 C29",
    "recap/commands.py": "C29 C22",
    "recap/cli.py": "C29",
    "recap/server/gateway.py": "C29",
    "recap/server/registry.py": "C26",
    "recap/server/app.py": "C29 C26",
    "recap/storage/registry.py": "C23 C24 C25",
}

CMP = {
    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE], ast.LtE: [ast.Lt],
    ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
    ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def put(n, text, desc):
        s, e = pos(n)
        old = b[s:e].decode()
        new = b[:s] + text.encode() + b[e:]
        try:
            compile(new.decode(), "x", "exec")
        except SyntaxError:
            return
        if old != text:
            out.append((n.lineno, f"{desc}: {' '.join(old.split())[:100]} -> {' '.join(text.split())[:100]}", new.decode()))

    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                skip.add(id(n.body[0]))
                skip.add(id(n.body[0].value))
            if not isinstance(n, (ast.ClassDef, ast.Module)):
                for a in n.args.args + n.args.kwonlyargs:
                    if a.annotation:
                        skip.update(id(x) for x in ast.walk(a.annotation))
                if n.returns:
                    skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, (ast.Raise, ast.Assert)):
            # messages
            skip.update(id(x) for x in ast.walk(n.exc if isinstance(n, ast.Raise) and n.exc else n.msg if isinstance(n, ast.Assert) and n.msg else ast.Pass()))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n) if isinstance(x, ast.Constant))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.update((id(n), id(n.value)))
    U = lambda n: "(" + ast.unparse(n) + ")"
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for r in CMP.get(type(o), []):
                    m = copy.deepcopy(n)
                    m.ops[i] = r()
                    put(n, U(m), "cmp")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n)
            m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            put(n, U(m), "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n)
                del m.values[i]
                put(n, U(m if len(m.values) > 1 else m.values[0]), "drop operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, U(n.operand), "not")
        elif isinstance(n, ast.BinOp):
            put(n, U(n.left), "left")
            put(n, U(n.right), "right")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), "const")
            elif isinstance(v, int):
                put(n, str(v + 1), "const")
                put(n, str(v - 1), "const")
            elif isinstance(v, str) and len(v) < 60:
                put(n, repr(v + "x"), "const")
                if v:
                    put(n, repr(""), "const")
            elif v is None:
                put(n, "False", "const")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, "True", "cond")
            put(n.test, "False", "cond")
        elif isinstance(n, ast.match_case):
            pass
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Delete)):
            put(n, "pass", "drop")
        elif isinstance(n, ast.Return) and n.value is not None:
            put(n, "return None", "return")
        elif isinstance(n, ast.Continue):
            put(n, "break", "loop")
        elif isinstance(n, ast.Break):
            put(n, "continue", "loop")
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n)
                del m.keywords[i]
                put(n, ast.unparse(m), "drop kw")
            if n.args:
                m = copy.deepcopy(n)
                del m.args[-1]
                put(n, ast.unparse(m), "drop arg")
            if len(n.args) == 1 and not n.keywords:
                put(n, U(n.args[0]), "drop call")
            if isinstance(n.func, ast.Attribute):
                put(n, U(n.func.value), "drop method")
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for i, g in enumerate(n.generators):
                for j in range(len(g.ifs)):
                    m = copy.deepcopy(n)
                    del m.generators[i].ifs[j]
                    put(n, ast.unparse(m), "drop if")
        if isinstance(n, ast.MatchOr):
            for i in range(len(n.patterns)):
                m = copy.deepcopy(n)
                del m.patterns[i]
                put(n, ast.unparse(m) if len(m.patterns) > 1 else ast.unparse(m.patterns[0]), "drop alt")
        if isinstance(n, ast.MatchClass):
            for i in range(len(n.kwd_attrs)):
                m = copy.deepcopy(n)
                del m.kwd_attrs[i], m.kwd_patterns[i]
                put(n, ast.unparse(m), "drop pattern")
        if isinstance(n, ast.Dict):
            for i in range(len(n.keys)):
                m = copy.deepcopy(n)
                del m.keys[i], m.values[i]
                put(n, ast.unparse(m), "drop item")
        if isinstance(n, (ast.List, ast.Tuple, ast.Set)) and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            for i in range(len(n.elts)):
                m = copy.deepcopy(n)
                del m.elts[i]
                if m.elts or not isinstance(n, ast.Set):
                    put(n, ast.unparse(m), "drop elt")
        if isinstance(n, ast.Match):
            for i, c in enumerate(n.cases):
                if c.guard is not None:
                    put(c.guard, "True", "guard")
                    if isinstance(c.guard, ast.BoolOp):
                        pass
                put(c.body[0] if False else c.pattern, "None if False else None", "x") if False else None
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults:
                if isinstance(d, ast.Constant) and d.value is None:
                    pass
    seen, res = set(), []
    for l, d, s in out:
        if s not in seen:
            seen.add(s)
            res.append((l, d, s))
    return res


def sh(cmd, timeout):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


NS = """mount --bind {w}/repo /repo && mount --bind {w}/verif /verif && mount --bind {w}/tmp /tmp && exec {cmd}"""


def work(slot, root, file, new, base):
    w = f"{root}/{slot}"
    p = f"{w}/repo/{file}"
    with open(p) as f:
        old = f.read()
    try:
        with open(p, "w") as f:
            f.write(new)
        run = lambda cmd, t: sh(["unshare", "-Urm", "--pid", "--fork", "--kill-child", "sh", "-c", NS.format(w=w, cmd=cmd)], t)
        try:
            os.remove(f"{w}/tmp/o.json")
        except FileNotFoundError:
            pass
        rc, out = run("bash /opt/vp/test.sh /tmp/o.json", 120)
        try:
            passed = set(json.load(open(f"{w}/tmp/o.json"))["passed"])
        except Exception:
            return {"result": "tests"}
        if base - passed:
            return {"result": "tests"}
        for pr in PROPS[file].split():
            rc, out = run(f"/verif/check {pr} quick", 900)
            if rc == 1 and f"VIOLATION property={pr}" in out:
                return {"result": "caught", "by": pr}
            if rc != 0:
                return {"result": "odd", "by": pr, "rc": rc, "out": out[-600:]}
        return {"result": "MISSED"}
    finally:
        with open(p, "w") as f:
            f.write(old)


def main():
    a = sys.argv[1:]
    outp = a.pop(0)
    j = 4
    if "-j" in a:
        i = a.index("-j")
        j = int(a[i + 1])
        del a[i : i + 2]
    root = "/var/tmp/mut"
    shutil.rmtree(root, ignore_errors=True)
    for s in range(j):
        os.makedirs(f"{root}/{s}/tmp")
        shutil.copytree("/repo", f"{root}/{s}/repo", symlinks=True)
        shutil.copytree("/verif", f"{root}/{s}/verif", symlinks=True)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["key"] for l in open(outp)}
    todo = []
    for file in PROPS:
        if a and not any(file.startswith(x) for x in a):
            continue
        for l, d, s in mutants(open("/repo/" + file).read()):
            key = f"{file}:{l}:{d}"
            if key not in done:
                todo.append((file, l, d, s, key))
    print(len(todo), "mutants", flush=True)
    slots = list(range(j))
    lock = threading.Lock()

    def one(t):
        file, l, d, s, key = t
        with lock:
            slot = slots.pop()
        try:
            r = work(slot, root, file, s, base)
        except Exception as e:
            r = {"result": "error", "out": repr(e)}
        with lock:
            slots.append(slot)
            with open(outp, "a") as f:
                f.write(json.dumps(dict(key=key, **r)) + "\n")

    with ThreadPoolExecutor(j) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
