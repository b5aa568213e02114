"""
Native child process: runs harnesses on concrete assignments against the REAL,
un-instrumented code of /repo.  JSON lines on stdin/stdout.
"""

from __future__ import annotations

import json
import os
import resource
import shutil
import sys
import tempfile


def main():
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything the code prints goes to stderr
    scratch = tempfile.mkdtemp(prefix="symx-native-")
    os.environ["RECAP_HOME"] = os.path.join(scratch, "home")
    os.environ["SYMX_SCRATCH"] = scratch
    os.chdir(scratch)
    resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))
    from . import common

    sys.path.insert(0, os.environ.get("SYMX_REPO", "/repo"))
    sys.path.insert(1, common.VERIF)
    try:
        for line in sys.stdin:
            req = json.loads(line)
            res, hung = [], False
            for a in req["assigns"]:
                if hung:  # one such run is enough
                    res.append({"violation": None, "obs": None, "skipped": True, "error": "not run"})
                    continue
                res.append(common.run_concrete(req["ref"], req["params"], a))
                hung = bool(res[-1].get("hang"))
            real_out.write(json.dumps(res) + "\n")
            real_out.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
