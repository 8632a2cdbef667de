"""Call ``module.function(arg)`` in this fresh process; JSON on stdin and stdout."""

import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "vendor"))
sys.path.insert(0, HERE)


def main() -> None:
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.WARNING)
    import jax

    job = json.loads(sys.stdin.read())
    jax.config.update("jax_enable_x64", job["x64"])
    jax.config.update("jax_platforms", "cpu")
    from vp import core

    core.TOL.x64 = job["x64"]
    fn = getattr(importlib.import_module(sys.argv[1]), sys.argv[2])
    print(json.dumps(fn(job["arg"])))


main()
