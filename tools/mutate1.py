"""First phase of the mutation trial: which mutants do the tests pass?
usage: mutate1.py OUT.jsonl STEP file...  (runs in its own mount namespace)"""
import sys, os, json, time, signal
sys.path.insert(0, "/verif/tools")
import mutate

out, step, shard, shards = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
files = sys.argv[5:]
os.chdir("/repo")
sys.dont_write_bytecode = True
os.environ.update(TZ="UTC", RECAP_HOME="/tmp/rh", PYTHONHASHSEED="0")
os.makedirs("/tmp/rh", exist_ok=True)
sys.path.insert(0, "/repo")
import pytest
import importlib, pkgutil
ARGS = ["-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests/unit", "tests/integration/clients/test_fs.py"]
# load the libraries once, then forget everything of the project
import tempfile
pid = None
def run():
    fd = os.open("/dev/null", os.O_WRONLY)
    os.dup2(fd, 1); os.dup2(fd, 2)
    return int(pytest.main(ARGS + ["--basetemp=/tmp/base%d" % os.getpid()]))
for m in open("/tmp/mods.txt").read().split():
    try:
        importlib.import_module(m)
    except Exception:
        pass
for m in [m for m in sys.modules if m.split(".")[0] in ("recap", "tests")]:
    del sys.modules[m]
i = 0
for f in files:
    src = open("/repo/" + f).read()
    for l, d, s in mutate.mutants(src):
        if d.endswith(" -> ''"):
            continue
        i += 1
        if i % step or (i // step) % shards != shard:
            continue
        with open("/repo/" + f, "w") as h:
            h.write(s)
        pid = os.fork()
        if pid == 0:
            signal.alarm(60)
            r = 99
            try:
                r = run()
            finally:
                os._exit(r)
        _, st = os.waitpid(pid, 0)
        ok = os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0
        with open(out, "a") as h:
            h.write(json.dumps({"key": f"{f}:{l}:{d}", "ok": ok, "st": st, "file": f, "line": l, "n": i}) + "\n")
    with open("/repo/" + f, "w") as h:
        h.write(src)
