"""
Entry point of every check: ``run.py <PROPERTY> [--tier quick|thorough]``.

Exit status: 0 the property held on everything explored, 1 a violation was found (with a
``VIOLATION property=<id> replay=<path>`` line), 2 the machinery itself failed.
"""

from __future__ import annotations

import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("VP_PYTHON", "/opt/venv/bin/python")
WORKERS = int(os.environ.get("VP_WORKERS", "8"))


def worker_env(scratch: str) -> dict:
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false "
        "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true",
        TF_CPP_MIN_LOG_LEVEL="3",
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"),
        VP_SCRATCH=scratch,
        PYTHONPATH=os.environ.get("VP_REPO", "/repo"),
        PYTHONWARNINGS="ignore",
    )
    return env


def run_jobs(jobs, scratch, timeout):
    procs = []
    env = worker_env(scratch)
    for job in jobs:
        log = open(job["out"] + ".log", "w")
        procs.append(
            (
                job,
                subprocess.Popen(
                    [PY, os.path.join(HERE, "vp", "worker.py"), json.dumps(job)],
                    stdout=log,
                    stderr=subprocess.STDOUT,
                    env=env,
                    cwd=scratch,
                    start_new_session=True,
                ),
            )
        )
    deadline = time.time() + timeout
    results, errors = [], []
    pending = list(procs)
    grace = None
    while pending:
        for item in list(pending):
            job, p = item
            rc = p.poll()
            if rc is None:
                continue
            pending.remove(item)
            if os.path.exists(job["out"]):
                with open(job["out"]) as fh:
                    res = json.load(fh)
                results.append(res)
                if res["violations"] and job["worker"] < 100 and grace is None:
                    grace = time.time() + 20
            else:
                with open(job["out"] + ".log") as fh:
                    errors.append(f"worker {job['worker']} rc={rc}: {fh.read()[-3000:]}")
        now = time.time()
        if pending and (now > deadline or (grace is not None and now > grace)):
            for job, p in pending:
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
                if now > deadline and grace is None:
                    errors.append(f"worker {job['worker']} timed out")
            pending = []
        time.sleep(0.1)
    return results, errors


def load_known(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("{"):  # "fixed: ..." lines suppress nothing
                    e = json.loads(line)
                    if e["property"] == prop:
                        out.append(e)
    return out


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--only", help="restrict to tests whose name contains this (dev)")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    prop = args.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vp_{prop}_")
    try:
        return drive(args, prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def drive(args, prop, tier, seed, t0, scratch) -> int:
    if args.replay:
        with open(args.replay) as fh:
            spec = json.load(fh)
        job = {
            "prop": prop,
            "worker": 0,
            "slot": 0,
            "mode": spec["mode"],
            "tier": tier,
            "seed": seed,
            "budget": 600,
            "out": os.path.join(scratch, "r.json"),
            "replay": spec,
        }
        res, err = run_jobs([job], scratch, 850)
        if err:
            print("\n".join(err))
            return 2
        if res[0]["violations"]:
            print(res[0]["violations"][0]["message"])
            print(f"VIOLATION property={prop} replay={args.replay}")
            return 1
        print("replay: property holds on this case")
        return 0

    budget = 600 if tier == "quick" else int(os.environ.get("VP_THOROUGH_S", "3000"))
    known = [k for k in load_known(prop) if k["status"] == "known"]
    jobs = []
    for w in range(WORKERS):
        jobs.append(
            {
                "prop": prop,
                "worker": w,
                "slot": w // 2,
                "mode": "f32" if w % 2 == 0 else "x64",
                "tier": tier,
                "seed": seed,
                "budget": budget,
                "only": args.only,
                "out": os.path.join(scratch, f"w{w}.json"),
            }
        )
    for j, k in enumerate(known):
        jobs.append(
            {
                "prop": prop,
                "worker": 100 + j,
                "slot": 0,
                "mode": k["replay"]["mode"],
                "tier": tier,
                "seed": seed,
                "budget": budget,
                "out": os.path.join(scratch, f"k{j}.json"),
                "replay": k["replay"],
            }
        )
    results, errors = run_jobs(jobs, scratch, 840 if tier == "quick" else budget + 1800)
    by_worker = {r["worker"]: r for r in results}
    for r in results:
        errors.extend(r["errors"])

    status = 0
    for j, k in enumerate(known):
        r = by_worker.get(100 + j)
        if r and r["violations"]:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    violations = [v for r in results if r["worker"] < 100 for v in r["violations"]]
    replay_paths = []
    if violations:
        violations.sort(key=lambda v: len(json.dumps(v["case"])))
        v = violations[0]
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        blob = json.dumps(v, indent=1, sort_keys=True)
        name = f"{prop}-{v['test']}-{hashlib.sha256(blob.encode()).hexdigest()[:10]}.json"
        path = os.path.join(rdir, name)
        with open(path, "w") as fh:
            fh.write(blob)
        replay_paths.append(path)
        print(f"{prop} [{v['test']}, {v['mode']}]: {v['message']}")
        print(f"  cfg={json.dumps(v['cfg'])}")
        print(f"  case={json.dumps(v['case'])[:1500]}")
        print(f"VIOLATION property={prop} replay={path}")
        status = 1
    if not violations:
        missing = [w for w in range(WORKERS) if w not in by_worker]
        if missing:
            errors.append(f"no result from workers {missing}")
        if not any(s["cases"] for w, r in by_worker.items() if w < 100
                   for s in r["tests"].values()):
            errors.append("no case was evaluated")
    if errors and not violations:
        print("MACHINERY ERROR")
        for e in errors[:3]:
            print(e)
        status = 2

    if not args.no_evidence:
        write_evidence(prop, tier, seed, results, violations, replay_paths, t0)
    results = [r for r in results if r["worker"] < 100]
    tot = sum(s["cases"] for r in results for s in r["tests"].values())
    non = sum(s["nontrivial"] for r in results for s in r["tests"].values())
    print(f"{prop} tier={tier} seed={seed}: {tot} cases, {non} non-trivial, "
          f"{time.time() - t0:.1f}s, status {status}")
    if os.environ.get("VP_VERBOSE"):
        agg: dict = {}
        for r in results:
            for name, s in r["tests"].items():
                a = agg.setdefault(name, [0, 0, 0, 0.0, {}])
                a[0] += s["cases"]
                a[1] += s["nontrivial"]
                a[2] += s["inconclusive"]
                a[3] = max(a[3], s["seconds"])
                for k, n in s["tags"].items():
                    a[4][k] = a[4].get(k, 0) + n
        for name, a in agg.items():
            print(f"   {name}: cases={a[0]} nontrivial={a[1]} inconcl={a[2]} max_s={a[3]} tags={a[4]}")
    return status


def write_evidence(prop, tier, seed, results, violations, replay_paths, t0) -> None:
    tests: dict = {}
    samples = []
    complete = True
    for r in results:
        if r["worker"] >= 100:
            continue
        complete = complete and r["complete"]
        for name, s in r["tests"].items():
            a = tests.setdefault(
                name,
                {
                    "cases": 0,
                    "nontrivial": 0,
                    "inconclusive": 0,
                    "configurations": 0,
                    "oracle_checks": 0,
                    "classes": {},
                    "rule": s["rule"],
                },
            )
            a["cases"] += s["cases"]
            a["nontrivial"] += s["nontrivial"]
            a["inconclusive"] += s["inconclusive"]
            a["configurations"] += s["configs"]
            a["oracle_checks"] += s["oracle_checks"]
            for k, n in s["tags"].items():
                a["classes"][k] = a["classes"].get(k, 0) + n
            if s["samples"] and sum(x["test"] == name for x in samples) < 1:
                samples.append({"test": name, "mode": r["mode"], **s["samples"][0]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(t["cases"] for t in tests.values()),
            "distinct_nontrivial": sum(t["nontrivial"] for t in tests.values()),
            "rule": "; ".join(f"{n}: {t['rule']}" for n, t in tests.items()),
            "samples": samples,
            "tests": tests,
            "all_planned_cases_run": complete,
        },
        "wall_s": round(time.time() - t0, 2),
        "assumptions": [
            "generated inputs are float32-representable; references are computed in "
            "float64 numpy; comparisons use the tolerances stated in DESIGN.md"
        ],
        "violations": [
            {"test": v["test"], "message": v["message"], "replay": p}
            for v, p in zip(violations, replay_paths)
        ],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as fh:
        json.dump(ev, fh, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    sys.exit(main())
