"""
Symbolic worker: explores harness jobs exhaustively over instrumented code.
JSON lines on stdin/stdout; owns one native child used for replay/validation.
"""

from __future__ import annotations

import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback


class Native:
    def __init__(self):
        self.p = None
        self.pending = None

    def start(self):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(
                [sys.executable, "-m", "symx.concrete"],
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL,
                cwd=os.environ["SYMX_VERIF"],
                text=True,
            )

    def send(self, ref, params, assigns):
        self.start()
        self.p.stdin.write(
            json.dumps({"ref": ref, "params": params, "assigns": assigns}) + "\n"
        )
        self.p.stdin.flush()

    def recv(self):
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return None
        return json.loads(line)

    def run(self, ref, params, assigns):
        self.send(ref, params, assigns)
        return self.recv()

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(10)
            except Exception:
                self.p.kill()


class Job:
    def __init__(self, core, hooks, common, native, job):
        self.core, self.hooks, self.common, self.native = core, hooks, common, native
        self.job = job
        self.ref, self.params = job["ref"], job["params"]
        self.stats = core.Stats()
        self.violations = []
        self.spurious = []
        self.inconclusive = []
        self.samples = []
        self.mismatches = []
        self.batch = []  # (assign, obs) not yet sent
        self.sent = None

    def run(self):
        core, hooks = self.core, self.hooks
        cx = core.SymCtx(self.stats, self.job.get("limits", {}))
        cx.forced = self.job.get("prefix") or []
        t0 = time.perf_counter()
        split_at = t0 + self.job.get("slice_s", 5.0)
        hard = self.job.get("deadline")
        fn = self.common.load_harness(self.ref)
        rest, timed_out = [], False
        path_s = self.job.get("path_s", 60.0)
        while True:
            cx.start_path()
            cx.deadline = time.perf_counter() + path_s
            core.CUR = cx
            status = "ok"
            try:
                # the deadline is looked at where paths branch; a loop without
                # branches is ended by the alarm
                signal.setitimer(signal.ITIMER_REAL, path_s + 2)
                try:
                    fn(cx, **self.params)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
            except core.StopPath:
                status = "violation"
            except core.Infeasible:
                status = "infeasible"
            except core.Control as e:
                status = f"inconclusive: {type(e).__name__}: {e}"
            except Exception as e:
                if self.common.exc_origin(e) == "code":
                    status = "exception"
                    try:
                        a = cx.assignment()
                        cx.violations.append(
                            ("unexpected exception " + self.common.exc_text(e), a)
                        )
                    except core.Control:
                        status = "infeasible"
                else:
                    status = f"inconclusive: harness {self.common.exc_text(e)}"
                    if os.environ.get("SYMX_DEBUG"):
                        traceback.print_exc()
            core.CUR = None
            self.stats.paths += 1
            if status == "infeasible":
                self.stats.infeasible += 1
            elif status == "ok":
                try:
                    cx._ensure_model()
                    a = cx.assignment(cx.model)
                    obs = [[l, self.common.plain(core.eval_plain(v, cx.model))] for l, v in cx.obs]
                    self.stats.completed += 1
                    self.queue(a, obs)
                    if len(self.samples) < 3:
                        self.samples.append({"inputs": a, "decisions": len(cx.path)})
                except core.Infeasible:
                    self.stats.infeasible += 1
                except core.Control as e:
                    status = f"inconclusive: {type(e).__name__}: {e}"
            if status.startswith("inconclusive"):
                self.stats.inconclusive += 1
                if len(self.inconclusive) < 20:
                    self.inconclusive.append(status)
                try:
                    cx.deadline = None
                    a = cx.assignment()
                    self.queue(a, None)
                except core.Control:
                    pass
            elif status in ("violation", "exception"):
                msg, a = cx.violations[-1]
                self.confirm(msg, a)
                if len(self.violations) >= self.job.get("max_violations", 8):
                    break
            if not cx.backtrack():
                break
            if hard is not None and time.time() > hard:
                timed_out = True
                break
            if time.perf_counter() > split_at:
                # hand the rest back so that idle workers can take it
                pre = []
                rest = []
                for d in cx.path:
                    pre.append([d.val, d.key])
                rest = [pre] + cx.frontier()
                break
        self.flush()
        self.collect()
        return {
            "id": self.job["id"],
            "ref": self.ref,
            "params": self.params,
            "rest": rest,
            "timed_out": timed_out,
            "stats": vars(self.stats),
            "violations": self.violations,
            "spurious": self.spurious,
            "inconclusive": self.inconclusive,
            "mismatches": self.mismatches,
            "samples": self.samples,
            "covers": sorted(cx.covers),
            "notes": sorted(cx.notes),
            "funcs": sorted(self.hooks.FUNCS),
            "wall_s": time.perf_counter() - t0,
        }

    # -- validation against the real code
    def queue(self, assign, obs):
        self.batch.append((assign, obs))
        if len(self.batch) >= 40:
            self.flush()

    def flush(self):
        if not self.batch:
            return
        self.collect()
        self.native.send(self.ref, self.params, [a for a, _ in self.batch])
        self.sent, self.batch = self.batch, []

    def collect(self):
        if self.sent is None:
            return
        res = self.native.recv()
        sent, self.sent = self.sent, None
        if res is None:
            self.mismatches.append({"error": "native child died"})
            return
        for (a, obs), r in zip(sent, res):
            if r["violation"]:
                # the real code breaks the property on this input
                self.violations.append({"msg": r["violation"], "assign": a, "via": "validation"})
            elif obs is None:
                pass  # inconclusive path: only the concrete run counts
            elif r["error"] or r["skipped"] or r["obs"] != obs:
                self.stats.mismatch += 1
                if len(self.mismatches) < 5:
                    self.mismatches.append({"assign": a, "sym": obs, "native": r})
            else:
                self.stats.validated += 1

    def confirm(self, msg, assign):
        self.collect()
        r = self.native.run(self.ref, self.params, [assign])
        r = r[0] if r else None
        if r and r["violation"]:
            self.violations.append(
                {"msg": r["violation"], "assign": assign, "via": "solver", "sym_msg": msg, "trace": r.get("trace")}
            )
        else:
            self.stats.inconclusive += 1
            if len(self.spurious) < 10:
                self.spurious.append({"msg": msg, "assign": assign, "native": r})


def main():
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    scratch = tempfile.mkdtemp(prefix="symx-worker-")
    os.environ["RECAP_HOME"] = os.path.join(scratch, "home")
    os.environ["SYMX_SCRATCH"] = scratch
    os.chdir(scratch)
    from . import common, core, hooks, instrument

    os.environ["SYMX_VERIF"] = common.VERIF
    instrument.install()

    def alarm(signum, frame):
        raise core.Budget("time budget")

    signal.signal(signal.SIGALRM, alarm)
    native = Native()
    native.start()
    try:
        for line in sys.stdin:
            job = json.loads(line)
            try:
                out = Job(core, hooks, common, native, job).run()
            except Exception as e:
                out = {"id": job["id"], "ref": job["ref"], "params": job["params"], "fatal": f"{type(e).__name__}: {e}", "trace": traceback.format_exc()[-3000:]}
            real_out.write(json.dumps(out) + "\n")
            real_out.flush()
    finally:
        native.close()
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
