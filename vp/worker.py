"""One worker process: runs its share of a property's tests and writes a result."""

from __future__ import annotations

import json
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)


def main() -> None:
    job = json.loads(sys.argv[1])
    out_path = job["out"]
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.WARNING)
    import jax

    jax.config.update("jax_enable_x64", job["mode"] == "x64")
    jax.config.update("jax_platforms", "cpu")

    import coreax

    root = os.path.dirname(os.path.dirname(os.path.abspath(coreax.__file__)))
    want = os.environ.get("VP_REPO", "/repo")
    if os.path.realpath(root) != os.path.realpath(want):
        raise RuntimeError(f"coreax imported from {root}, expected {want}")

    import importlib

    from vp import core

    core.TOL.x64 = job["mode"] == "x64"
    importlib.import_module(f"props.{job['prop'].lower()}")
    tests = core.TESTS[job["prop"]]

    result = {
        "worker": job["worker"],
        "mode": job["mode"],
        "tests": {},
        "violations": [],
        "errors": [],
        "complete": True,
    }
    started = time.time()

    def write():
        tmp = out_path + ".tmp"
        with open(tmp, "w") as fh:
            json.dump(result, fh)
        os.replace(tmp, out_path)

    if job.get("replay"):
        spec = job["replay"]
        test = next(t for t in tests if t.name == spec["test"])
        rec = core.Recorder()
        try:
            run_check(core, test, spec["cfg"], spec["case"], rec)
        except core.Violation as ex:
            result["violations"].append({**spec, "message": str(ex)})
        except core.Inconclusive:
            pass
        write()
        return

    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 40

    for test in tests:
        if job["mode"] not in test.modes:
            continue
        if test.workers is not None and job["slot"] not in test.workers:
            continue
        if job.get("only") and job["only"] not in test.name:
            continue
        mult_c = test.thorough_configs if job["tier"] == "thorough" else 1
        mult_e = test.thorough_examples if job["tier"] == "thorough" else 1
        n_cfg = max(1, int(test.configs * mult_c))
        n_ex = max(1, int(test.examples * mult_e))
        stats = {
            "cases": 0,
            "nontrivial": 0,
            "configs": 0,
            "inconclusive": 0,
            "oracle_checks": 0,
            "tags": {},
            "samples": [],
            "seconds": 0.0,
            "rule": (test.__doc__ or "").strip(),
        }
        result["tests"][test.name] = stats
        t0 = time.time()
        rng = random.Random(
            core.stable_seed(job["seed"], job["slot"], job["mode"], test.name, "cfg")
        )
        for j in range(n_cfg):
            if time.time() - started > job["budget"]:
                result["complete"] = False
                break
            cfg = test.config(rng, job["slot"] * n_cfg + j)
            if cfg is None:
                continue
            cfg = json.loads(json.dumps(cfg))
            stats["configs"] += 1
            run_config(core, job, test, cfg, j, n_ex, stats, result)
            if result["violations"] or result["errors"]:
                break
            if time.time() - t0 > 20 and j % 4 == 3:
                jax.clear_caches()
        stats["seconds"] = round(time.time() - t0, 2)
        if result["violations"] or result["errors"]:
            break
    write()


class Hang(BaseException):
    """A check exceeded its time limit (reported unshrunk)."""


def run_config(core, job, test, cfg, j, n_ex, stats, result) -> None:
    from hypothesis import HealthCheck, Phase, given, seed, settings
    from hypothesis import strategies as st

    failing = {}
    seen = set()

    @st.composite
    def cases(draw):
        return test.case(draw, cfg)

    @seed(core.stable_seed(job["seed"], job["slot"], job["mode"], test.name, j))
    @settings(
        max_examples=n_ex,
        deadline=None,
        database=None,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
        print_blob=False,
        report_multiple_bugs=False,
    )
    @given(cases())
    def runner(case):
        rec = core.Recorder()
        key = json.dumps(case, sort_keys=True)
        try:
            run_check(core, test, cfg, case, rec)
        except core.Inconclusive:
            stats["inconclusive"] += 1
            return
        except Hang:
            failing["case"] = case
            failing["message"] = f"did not finish within {test.case_timeout} s"
            raise
        except core.Violation as ex:
            failing["case"] = case
            failing["message"] = str(ex)
            raise
        if key not in seen:
            seen.add(key)
            stats["cases"] += 1
            stats["oracle_checks"] += rec.checks
            if rec.nontrivial:
                stats["nontrivial"] += 1
            for tg in rec.tags:
                stats["tags"][tg] = stats["tags"].get(tg, 0) + 1
            if rec.nontrivial and len(stats["samples"]) < 2:
                stats["samples"].append({"cfg": cfg, "case": case})

    def report(prefix=""):
        result["violations"].append(
            {
                "test": test.name,
                "mode": job["mode"],
                "cfg": cfg,
                "case": failing["case"],
                "message": prefix + failing["message"],
            }
        )

    try:
        runner()
    except (core.Violation, Hang):
        report()
    except Exception as ex:  # noqa: BLE001
        if failing and "laky" in type(ex).__name__:
            report("(not reproducible on immediate rerun) ")
        else:
            result["errors"].append(
                f"{test.name} cfg={json.dumps(cfg)}: "
                + "".join(traceback.format_exception(ex))[-3000:]
            )


def _on_alarm(signum, frame):
    raise Hang()


def run_check(core, test, cfg, case, rec) -> None:
    """Run one check; an unexpected exception on a valid input is a violation."""
    if test.case_timeout:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(test.case_timeout)
    try:
        test.check(cfg, case, rec)
    except (core.Violation, core.Inconclusive):
        raise
    except MemoryError:
        raise
    except Exception as ex:  # noqa: BLE001
        if "RESOURCE_EXHAUSTED" in str(ex):
            raise
        tb = traceback.extract_tb(ex.__traceback__)
        in_code = any("/coreax/" in fr.filename for fr in tb)
        where = next(
            (
                f"{os.path.basename(fr.filename)}:{fr.lineno}"
                for fr in reversed(tb)
                if "/coreax/" in fr.filename or "/props/" in fr.filename
            ),
            "?",
        )
        kind = "raised" if in_code else "gave an unusable result:"
        raise core.Violation(
            f"valid input {kind} {type(ex).__name__}: {str(ex)[:300]} (at {where})"
        ) from ex
    finally:
        if test.case_timeout:
            signal.alarm(0)


if __name__ == "__main__":
    main()
