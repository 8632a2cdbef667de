"""C01 every solver returns a valid coresubset of the requested size."""

import numpy as np

from props import ref, solv
from vp.core import PTest, register


class _Base(PTest):
    prop = "C01"
    names = ()

    def config(self, r, i):
        name = self.names[i % len(self.names)]
        c = solv.random_solver(r, name)
        c["sup"] = name == "GreedyKernelPoints" or r.random() < 0.3
        return c

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, sup=cfg["sup"])

    def check(self, cfg, case, rec):
        data, x, w, y = solv.make_data(cfg, case)
        before = [np.array(data.data), np.array(data.weights)]
        coreset = solv.solve(cfg, solv.build(cfg, case["key"]), data)
        what = cfg["s"]
        idx = solv.valid(rec, cfg, coreset, data, x, y, what)
        rec.require(
            np.array_equal(before[0], np.asarray(data.data))
            and np.array_equal(before[1], np.asarray(data.weights)),
            "%s modified its input",
            what,
        )
        if what in ("Caratheodory", "Tree"):
            f = solv.feats(cfg["tf"], x)
            size = {"implicit": len(x), "implicit-explicit": min(len(x), f.shape[1])}
            if cfg["mode"] in size:
                rec.require(len(idx) == size[cfg["mode"]], "%s size %d", what, len(idx))
            else:
                rec.require(1 <= len(idx) <= min(len(x), f.shape[1]), "%s size %d", what, len(idx))
                rec.require(np.all(np.asarray(coreset.points.weights) > 0), "zero weight kept")
        else:
            rec.require(len(idx) == cfg["m"], "%s size %d, requested %d", what, len(idx), cfg["m"])
            rec.require(
                np.all(np.asarray(coreset.points.weights) == 1),
                "%s: coreset weights %s",
                what,
                coreset.points.weights,
            )
        rec.tag(what, "supervised" if y is not None else "plain", case["x"]["style"])
        rec.mark(1 < len(idx) < len(x))


@register
class Greedy(_Base):
    """Validity, size and provenance of the coresubsets of the greedy and sampling solvers;
    non-trivial: more than one point and fewer than all are requested."""

    name = "greedy"
    names = (
        "KernelHerding",
        "SteinThinning",
        "RandomSample",
        "RPCholesky",
        "GreedyKernelPoints",
        "KernelHerdingIter",
    )
    configs, examples = 12, 12


@register
class Hierarchical(_Base):
    """The same for the hierarchical and composite solvers; non-trivial: more than one
    point and fewer than all are requested."""

    name = "hierarchical"
    names = ("KernelThinning", "MapReduceH", "CompressPlusPlus", "MapReduceS")
    configs, examples = 4, 14
    case_timeout = 120


@register
class Recombination(_Base):
    """The same for the recombination solvers; non-trivial: more than one point and fewer
    than all are kept."""

    name = "recombination"
    names = ("Caratheodory", "Tree")
    configs, examples = 8, 10
