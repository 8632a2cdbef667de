"""C02 coresubsets requested to be unique contain no index twice (any solver, any route)."""

import numpy as np
from hypothesis import strategies as st

from props import solv
from vp.core import PTest, register


def no_dups(rec, idx, what):
    rec.require(len(set(idx.tolist())) == len(idx), "%s: repeated index in %s", what, idx)


class _Base(PTest):
    prop = "C02"
    names = ()

    def config(self, r, i):
        c = solv.random_solver(r, self.names[i % len(self.names)])
        c["unique"] = True
        return c

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg)

    def check(self, cfg, case, rec):
        data, x, w, _ = solv.make_data(cfg, case)
        coreset = solv.solve(cfg, solv.build(cfg, case["key"]), data)
        idx = solv.indices_of(coreset)
        no_dups(rec, idx, cfg["s"])
        if cfg["s"] in ("KernelHerding", "SteinThinning", "KernelHerdingIter"):
            rec.require(np.all(w[idx] > 0), "%s selected a zero-weighted point", cfg["s"])
        rec.tag(cfg["s"])
        same = len(np.unique(x, axis=0)) < len(x)
        rec.tag("coincident points" if same else "distinct points")
        rec.mark(2 * cfg["m"] > cfg["n"] or same)


@register
class Greedy(_Base):
    """No repeated index from the greedy and sampling solvers; non-trivial: more than half
    the data is requested or the data contain coincident points (where a solver is drawn
    to the same point again)."""

    name = "greedy"
    names = (
        "KernelHerding",
        "GreedyKernelPoints",
        "RPCholesky",
        "SteinThinning",
        "RandomSample",
        "KernelHerdingIter",
        "GreedyKernelPoints",
    )
    configs, examples = 14, 12


@register
class Hierarchical(_Base):
    """No repeated index from the hierarchical and composite solvers; non-trivial: as
    above."""

    name = "hierarchical"
    names = ("KernelThinning", "MapReduceH", "CompressPlusPlus", "MapReduceS")
    configs, examples = 4, 14
    case_timeout = 120


@register
class Refined(PTest):
    """No repeated index after refining any initial coresubset (under-sized, full or
    over-sized, with or without repeats in it); non-trivial: the initial coresubset is not
    the solver's own result and has a different size or repeated indices."""

    prop, name = "C02", "refine"
    configs, examples = 12, 12

    def config(self, r, i):
        c = solv.random_solver(
            r, ("KernelHerding", "SteinThinning", "GreedyKernelPoints")[i % 3]
        )
        c["unique"] = True
        n, m = c["n"], c["m"]
        c["l0"] = r.choice([m, m, max(1, m - 1), max(1, m // 2), 1, min(n, m + 2)])
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg)
        n = cfg["n"]
        if draw(st.booleans()):
            case["init"] = draw(st.permutations(list(range(n))))[: cfg["l0"]]
        else:
            case["init"] = draw(
                st.lists(st.integers(0, n - 1), min_size=cfg["l0"], max_size=cfg["l0"])
            )
        return case

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset

        if cfg["l0"] > cfg["m"]:  # leave enough selectable points besides the extra ones
            case = {**case, "w": {"style": "ones", "n": cfg["n"]}}
        data, x, w, y = solv.make_data(cfg, case)
        init = Coresubset.build(jnp.asarray(case["init"], dtype=jnp.int32), data)
        out, _ = solv.refine_(solv.build(cfg, case["key"]), init)
        idx = solv.valid(rec, cfg, out, data, x, y, cfg["s"] + " refinement")
        rec.require(len(idx) == cfg["m"], "refined size %d != %d", len(idx), cfg["m"])
        no_dups(rec, idx, cfg["s"] + " refinement")
        if cfg["s"] != "GreedyKernelPoints":
            rec.require(np.all(w[idx] > 0), "%s refined to a zero-weighted point", cfg["s"])
        rep = len(set(case["init"])) < len(case["init"])
        rec.tag(cfg["s"], "repeats" if rep else "distinct")
        rec.mark(rep or cfg["l0"] != cfg["m"])
