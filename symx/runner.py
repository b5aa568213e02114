"""
Runs the check of one property: schedules its harness jobs over worker
processes, applies the known-findings list, prints the verdict, writes
evidence/<id>.json and replay files.
"""

from __future__ import annotations

import argparse
import importlib
import json
import os
import selectors
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def matches(finding, pid, ref, v):
    if finding.get("status") != "known" or finding["property"] != pid:
        return False
    m = finding["match"]
    if m.get("harness") and m["harness"] != ref:
        return False
    if m["message"] != v["msg"]:
        return False
    for k, want in m.get("where", {}).items():
        if v["assign"].get(k) != want:
            return False
    return True


class Pool:
    def __init__(self, n, env):
        self.sel = selectors.DefaultSelector()
        self.ws = []
        for _ in range(n):
            p = subprocess.Popen(
                [sys.executable, "-m", "symx.worker"],
                stdin=subprocess.PIPE,
                stdout=subprocess.PIPE,
                stderr=None if os.environ.get("SYMX_DEBUG") else subprocess.DEVNULL,
                cwd=VERIF,
                env=env,
                text=True,
            )
            self.sel.register(p.stdout, selectors.EVENT_READ, p)
            self.ws.append(p)
        self.idle = list(self.ws)
        self.busy = {}

    def give(self, job):
        p = self.idle.pop()
        self.busy[p] = job
        p.stdin.write(json.dumps(job) + "\n")
        p.stdin.flush()

    def wait(self, timeout):
        out = []
        for key, _ in self.sel.select(timeout):
            p = key.data
            line = p.stdout.readline()
            job = self.busy.pop(p, None)
            if not line:
                self.sel.unregister(p.stdout)
                self.ws.remove(p)
                if job is not None:
                    out.append({"id": job["id"], "ref": job["ref"], "params": job["params"], "fatal": "worker died"})
                continue
            self.idle.append(p)
            out.append(json.loads(line))
        return out

    def close(self):
        for p in self.ws:
            try:
                p.stdin.close()
            except Exception:
                pass
        for p in self.ws:
            try:
                p.wait(15)
            except Exception:
                p.kill()


def merge_stats(tot, s):
    for k, v in s.items():
        tot[k] = tot.get(k, 0) + v


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMX_JOBS", "0")) or (os.cpu_count() or 8))
    ap.add_argument("--limit-s", type=float, default=None)
    ap.add_argument("--only", default=None, help="run only harnesses whose ref contains this")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    t0 = time.time()
    limit = a.limit_s or (420.0 if a.tier == "quick" else 3300.0)
    deadline = t0 + limit
    stop_after = float(os.environ.get("SYMX_STOP_AFTER", "20"))

    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    plan = load_plan(pid, a.tier)
    jobs = []
    for ref, params, opts in plan["jobs"]:
        if a.only and a.only not in ref:
            continue
        jobs.append(
            {
                "id": len(jobs),
                "ref": ref,
                "params": params,
                "limits": {"query_ms": 20000 if a.tier == "quick" else 120000, **opts.get("limits", {})},
                "deadline": deadline,
                "slice_s": opts.get("slice_s", 4.0),
            }
        )
    njobs = len(jobs)
    pool = Pool(min(a.jobs, max(2, njobs * 4)), env)
    queue = list(jobs)
    nid = njobs
    tot, funcs, covers, notes = {}, set(), set(), set()
    per = {}
    viols, spurious, inconc, mism, samples, fatals = [], [], [], [], [], []
    timed_out = False
    first_viol = None
    try:
        while queue or pool.busy:
            while queue and pool.idle:
                pool.give(queue.pop())
            for r in pool.wait(1.0):
                if r.get("fatal"):
                    fatals.append(r)
                    continue
                merge_stats(tot, r["stats"])
                key = r["ref"] + (" " + json.dumps(r["params"], sort_keys=True) if r["params"] else "")
                ps = per.setdefault(key, {"paths": 0, "completed": 0, "cpu_s": 0.0})
                ps["paths"] += r["stats"]["paths"]
                ps["completed"] += r["stats"]["completed"]
                ps["cpu_s"] = round(ps["cpu_s"] + r["wall_s"], 2)
                funcs |= set(r["funcs"])
                covers |= {r["ref"] + ":" + c for c in r["covers"]}
                notes |= set(r["notes"])
                samples.extend([dict(s, harness=r["ref"]) for s in r["samples"]][:2])
                for v in r["violations"]:
                    viols.append((r["ref"], r["params"], v))
                spurious += [dict(x, ref=r["ref"]) for x in r["spurious"]]
                inconc += [r["ref"] + ": " + x for x in r["inconclusive"]]
                mism += [dict(x, ref=r["ref"]) for x in r["mismatches"]]
                timed_out |= r["timed_out"]
                if time.time() > deadline and r["rest"]:
                    timed_out = True
                else:
                    for pre in r["rest"]:
                        j = dict(next(j for j in jobs if j["ref"] == r["ref"] and j["params"] == r["params"]))
                        j.update(id=nid, prefix=pre)
                        nid += 1
                        queue.append(j)
            if not pool.ws:
                fatals.append({"fatal": "all workers died"})
                break
            new = [v for v in viols if not any(matches(f, pid, v[0], v[2]) for f in known_findings())]
            if new and first_viol is None:
                first_viol = time.time()
            if first_viol and time.time() - first_viol > stop_after:
                timed_out = True
                break
            if time.time() > deadline + 60:
                timed_out = True
                break
    finally:
        pool.close()

    # -- verdict
    kf = known_findings()
    known_hit, new = {}, []
    for ref, params, v in viols:
        f = next((f for f in kf if matches(f, pid, ref, v)), None)
        if f:
            known_hit.setdefault(f["id"], f)
        else:
            new.append((ref, params, v))
    for f in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {f['id']}: {f['what']}")
    # de-duplicate by message + harness
    seen, lines = set(), []
    rdir = os.path.join(VERIF, "evidence", "replay")
    for ref, params, v in new:
        k = (ref, v["msg"])
        if k in seen:
            continue
        seen.add(k)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{len(seen)}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "harness": ref, "params": params, "assign": v["assign"], "message": v["msg"], "trace": v.get("trace")}, fh, indent=1)
        print(f"  {v['msg']}")
        print(f"  harness {ref} {params} inputs {json.dumps(v['assign'])}")
        lines.append(f"VIOLATION property={pid} replay={path}")
        if len(seen) >= 10:
            break
    for l in lines:
        print(l)
    missing = [c for c in plan.get("must_cover", []) if c not in covers]
    wall = time.time() - t0
    ev = {
        "property": pid,
        "tier": a.tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": tot.get("completed", 0),
            "transitions": tot.get("branches", 0),
            "traces_validated_against_impl": tot.get("validated", 0),
            "samples": samples[:12],
            "exhaustive": not timed_out and not fatals and not inconc and not spurious,
            "explanation": "states = symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions = solver-decided branch points; traces_validated = paths whose solver model was re-run on the un-instrumented code with identical observations",
            "infeasible_paths": tot.get("infeasible", 0),
            "property_assertions": tot.get("checks", 0),
            "assertions_discharged_by_solver_query": tot.get("obligations", 0),
            "assertions_discharged_by_simplification": tot.get("trivial_checks", 0),
            "solver_queries": tot.get("queries", 0),
            "solver_s": round(tot.get("solver_s", 0.0), 3),
            "functions_encoded": sorted(f for f in funcs if f.startswith("recap.")),
            "library_functions_encoded": sorted(f for f in funcs if f.startswith("_sx_")),
            "bounds": plan["bounds"],
            "outside_bounds": plan.get("outside", ""),
            "stubs": plan.get("stubs", []),
            "harnesses": per,
            "vacuity_witnesses_reached": sorted(covers),
            "vacuity_witnesses_missing": missing,
            "inconclusive_paths": tot.get("inconclusive", 0),
            "inconclusive": sorted(set(inconc))[:20],
            "non_reproducing_counterexamples": spurious[:5],
            "model_vs_native_mismatches": tot.get("mismatch", 0),
            "mismatches": mism[:5],
            "timed_out": timed_out,
            "errors": [f.get("fatal", "") + "\n" + f.get("trace", "") for f in fatals][:5],
            "solver_notes": sorted(notes)[:5],
            "known_findings_hit": sorted(known_hit),
        },
        "assumptions": plan.get("assumptions", []) + plan.get("stubs", []),
        "wall_s": round(wall, 2),
        "violations": len(seen),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    verdict = "VIOLATED" if seen else "held"
    print(
        f"{pid} {a.tier}: {verdict}; {tot.get('completed',0)} paths, {tot.get('validated',0)} validated natively, "
        f"{tot.get('queries',0)} solver queries ({tot.get('solver_s',0.0):.1f}s), {tot.get('inconclusive',0)} inconclusive, "
        f"{tot.get('mismatch',0)} mismatches, {len(fatals)} errors, "
        f"{'TIMED OUT, ' if timed_out else ''}{wall:.1f}s"
    )
    if missing:
        print("INCONCLUSIVE: witnesses not reached: " + ", ".join(missing))
    if a.v:
        for x in sorted(set(inconc))[:20]:
            print("  inconclusive:", x)
        for x in mism[:5]:
            print("  mismatch:", json.dumps(x)[:1500])
        for x in spurious[:5]:
            print("  spurious:", json.dumps(x)[:1500])
        for f in fatals[:3]:
            print("  fatal:", f.get("ref"), f.get("fatal"), f.get("trace", ""))
        for k, v in sorted(per.items(), key=lambda kv: -kv[1]["cpu_s"])[:25]:
            print("  ", v, k)
    if seen:
        return 1
    if not tot.get("completed") or (fatals and not pool.ws):
        print("NO ANSWER: nothing could be executed")
        return 2
    return 0


def load_plan(pid, tier):
    """props/plans.py lists jobs without importing the code under test"""
    sys.path.insert(0, VERIF)
    plans = importlib.import_module("props.plans")
    return plans.plan(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
