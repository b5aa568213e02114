"""Helper to plant a bug: applies substitutions to /repo, checks that the tests
pass and the demo tells the two trees apart, runs the property's check, reverts.
usage: from tools.seed import seed; seed(id, prop, {file: [(old, new)]}, demo, needs, breaks)"""

import json
import os
import stat
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# exit 0: the property holds; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
scratch=$(mktemp -d); trap 'rm -rf "$scratch"' EXIT
export RECAP_HOME="$scratch/home" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 SCRATCH="$scratch"
/opt/venv/bin/python "$here/demo.py"
"""


def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


# caught, but they change lines that a "fix:" commit of mine added
RETIRED = ("S167", "S11", "S14", "S55", "S79", "S102", "S103", "S109")


def seed(id, prop, subs, demo, needs, breaks, check=True):
    if id in RETIRED:
        return
    d = os.path.join(V, "seeded", id)
    assert run("git", "-C", "/repo", "status", "--porcelain").stdout == "", "dirty repo"
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(demo)
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
    ok = True
    base = run("bash", d + "/demo.sh", cwd="/repo")
    if base.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN TREE", base.stdout[-500:], base.stderr[-800:])
        ok = False
    try:
        for file, ss in subs.items():
            p = "/repo/" + file
            s = open(p).read()
            for old, new in ss:
                assert s.count(old) == 1, (id, file, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        diff = run("git", "-C", "/repo", "diff").stdout
        with open(d + "/patch.diff", "w") as f:
            f.write(diff)
        t = run("bash", "/opt/vp/test.sh", "/tmp/seed_out.json")
        last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-300:]
        r = json.load(open("/tmp/seed_out.json"))
        base_tests = json.load(open("/opt/vp/BASELINE.json"))
        want = set(base_tests["stable"])
        missing = want - set(r.get("passed", []))
        if missing:
            print(id, "TESTS FAIL", sorted(missing)[:5], len(missing))
            ok = False
        m = run("bash", d + "/demo.sh", cwd="/repo")
        if m.returncode == 0:
            print(id, "DEMO PASSES WITH PATCH")
            ok = False
        c = None
        if check:
            c = run(V + "/check", prop, "quick")
            out = [l for l in c.stdout.splitlines() if not l.startswith("VIOLATION")]
            print(f"{id} [{prop}] demo={m.returncode} check={c.returncode}:", (out[0][:200] if c.returncode == 1 else c.stdout[-300:]))
    finally:
        run("git", "-C", "/repo", "checkout", "--", ".")
    if not ok:
        print(id, "NOT KEPT")
        subprocess.run(["rm", "-r", d])
        return False
    if c is not None:
        cp = V + "/tools/catch.json"
        caught = json.load(open(cp))
        caught[id] = prop if c.returncode == 1 else "missed"
        json.dump(caught, open(cp, "w"), indent=0, sort_keys=True)
    return bool(c and c.returncode == 1)
