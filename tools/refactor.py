"""Tries behaviour-preserving edits: applies each to /repo, runs the tests and the
given checks, which have to stay quiet, and reverts it.
usage: refactor.py [id...]"""

import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def ref(id, props, subs):
    R[id] = (props, subs)


def run(*a):
    return subprocess.run(a, capture_output=True, text=True)


def main(ids):
    for id in ids or sorted(R):
        props, subs = R[id]
        assert run("git", "-C", "/repo", "status", "--porcelain").stdout == "", "dirty repo"
        try:
            for file, ss in subs.items():
                p = "/repo/" + file
                s = open(p).read()
                for old, new in ss:
                    assert s.count(old) == 1, (id, file, s.count(old), old)
                    s = s.replace(old, new)
                open(p, "w").write(s)
            run("bash", "/opt/vp/test.sh", "/tmp/ref_out.json")
            r = json.load(open("/tmp/ref_out.json"))
            missing = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(r.get("passed", []))
            if missing:
                print(id, "TESTS FAIL", sorted(missing)[:5])
                continue
            for pr in props:
                c = run(V + "/check", pr, "quick")
                lines = c.stdout.strip().splitlines()
                print(id, pr, c.returncode, lines[-1][:190] if c.returncode == 0 and lines else c.stdout[:500] + c.stderr[-300:], flush=True)
                for l in lines:
                    if "INCONCLUSIVE" in l:
                        print("   ", l[:300])
        finally:
            run("git", "-C", "/repo", "checkout", "--", ".")
