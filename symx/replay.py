"""Re-runs one reported counterexample against the real, un-instrumented code."""

import json
import os
import shutil
import sys
import tempfile


def main(path):
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="symx-replay-")
    os.environ["RECAP_HOME"] = os.path.join(scratch, "home")
    os.environ["SYMX_SCRATCH"] = scratch
    from . import common

    sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
    sys.path.insert(1, common.VERIF)
    os.chdir(scratch)
    try:
        out = common.run_concrete(r["harness"], r["params"], r["assign"])
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    print("property", r["property"], "harness", r["harness"], r["params"])
    print("inputs", json.dumps(r["assign"]))
    for label, v in out["obs"] or []:
        print("observed", label, json.dumps(v))
    if out["violation"]:
        print("VIOLATED:", out["violation"])
        if out.get("trace"):
            print(out["trace"])
        return 1
    print("held", out["error"] or "")
    return 0
