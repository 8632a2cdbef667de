"""Print, per property, what every registered test generates and decides (docstrings)."""
import importlib, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "vendor"), HERE]
from vp import core
for i in range(1, 40):
    try:
        m = importlib.import_module(f"props.c{i:02d}")
    except ModuleNotFoundError:
        continue
    print(f"### C{i:02d}")
    for t in core.TESTS.get(f"C{i:02d}", []):
        print(f"- **{t.name}** ({8 * t.configs if t.workers is None else t.configs * len(t.workers) * 2} configurations x {t.examples} cases): " + " ".join((t.__doc__ or "").split()))
