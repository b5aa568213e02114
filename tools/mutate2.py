"""Second phase of the mutation trial: runs the checks on mutants the tests pass.
usage: mutate2.py SURVIVORS OUT -j N -k EVERY [file prefix...]"""
import json, os, random, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate

a = sys.argv[1:]
src, outp = a.pop(0), a.pop(0)
j, k = int(a[a.index("-j") + 1]), int(a[a.index("-k") + 1])
pre = [x for x in a[4:]]
RARE = ("drop arg", "drop method", "drop call")
keys = {}
for l in open(src):
    d = json.loads(l)
    if d["ok"]:
        keys[d["key"]] = d["file"]
done = {json.loads(l)["key"] for l in open(outp)} if os.path.exists(outp) else set()
todo = []
for f in sorted(set(keys.values())):
    if pre and not any(f.startswith(p) for p in pre):
        continue
    for l, d, s in mutate.mutants(open("/repo/" + f).read()):
        key = f"{f}:{l}:{d}"
        if key in keys and key not in done:
            todo.append((f, l, d, s, key))
random.seed(7)
todo = [t for t in todo if not t[2].startswith(RARE) or random.random() < 0.1]
random.shuffle(todo)
todo = todo[:: k]
print(len(todo), "to check", flush=True)
root = "/var/tmp/mut"
shutil.rmtree(root, ignore_errors=True)
for s in range(j):
    os.makedirs(f"{root}/{s}/tmp")
    shutil.copytree("/repo", f"{root}/{s}/repo", symlinks=True)
    shutil.copytree("/verif", f"{root}/{s}/verif", symlinks=True)
slots, lock = list(range(j)), threading.Lock()


def one(t):
    f, l, d, s, key = t
    with lock:
        slot = slots.pop()
    w = f"{root}/{slot}"
    p = f"{w}/repo/{f}"
    old = open(p).read()
    r = {"result": "MISSED"}
    try:
        open(p, "w").write(s)
        for pr in mutate.PROPS[f].split():
            rc, out = mutate.sh(["unshare", "-Urm", "--pid", "--fork", "--kill-child", "sh", "-c", mutate.NS.format(w=w, cmd=f"/verif/check {pr} quick")], 900)
            if rc == 1 and f"VIOLATION property={pr}" in out:
                r = {"result": "caught", "by": pr}
                break
            if rc != 0:
                r = {"result": "odd", "by": pr, "rc": rc, "out": out[-600:]}
                break
    except Exception as e:
        r = {"result": "error", "out": repr(e)}
    open(p, "w").write(old)
    with lock:
        slots.append(slot)
        with open(outp, "a") as h:
            h.write(json.dumps(dict(key=key, **r)) + "\n")


with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, todo))
shutil.rmtree(root, ignore_errors=True)
