"""C20 determinism, JIT-independence, purity and state reuse."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref, solv
from vp.core import TOL, Inconclusive, PTest, jnp_array, points, register, weights


def snap(tree):
    """Values of all leaves of a pytree (arrays copied to the host)."""
    import jax
    import jax.tree_util as jtu

    out = []
    for leaf in jtu.tree_leaves(tree):
        if eqx.is_array(leaf):
            if jax.dtypes.issubdtype(leaf.dtype, jax.dtypes.prng_key):
                leaf = jax.random.key_data(leaf)
            out.append(np.array(leaf))
        else:
            out.append(leaf)
    return out


def same_snap(a, b):
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if isinstance(u, np.ndarray):
            if not (u.shape == v.shape and u.dtype == v.dtype and np.array_equal(u, v, equal_nan=u.dtype.kind == "f")):
                return False
        elif u is not v and u != v:
            return False
    return True


def result(coreset):
    return (
        np.array(coreset.unweighted_indices), np.array(coreset.points.data), np.array(coreset.points.weights),
    )


def equal(rec, a, b, what, exact):
    rec.require(np.array_equal(a[0], b[0]), "%s: indices %s then %s", what, a[0], b[0])
    rec.require(np.array_equal(a[1], b[1]), "%s: different points", what)
    if exact:
        rec.require(np.array_equal(a[2], b[2]), "%s: weights %s then %s", what, a[2], b[2])
    else:
        rec.close(b[2], a[2], what + ": weights", 1e-6, 1e-7)


def eager(c, solver, data):
    if c["s"] == "KernelHerdingIter":
        sched = jnp_array(np.linspace(1.0, 0.1, c["iters"])) if c["sched"] else None
        return solver.reduce_iterative(data, num_iterations=c["iters"], t_schedule=sched)[0]
    return solver.reduce(data)[0]


def draw_case(draw, cfg):
    gen = ("normal", "uniform", "skew")
    a = solv.draw_data(draw, cfg, sup=cfg["s"] == "GreedyKernelPoints", zeros=False, styles=gen)
    b = solv.draw_data(draw, cfg, sup=cfg["s"] == "GreedyKernelPoints", zeros=False, styles=gen)
    return {"a": a, "b": b}


@register
class Repeat(PTest):
    """Reducing A, then B (other data and key), then A again with compiled solvers gives
    identical coresets for A; neither data nor solver is modified, and numpy arrays give
    the same result as JAX arrays; non-trivial: the coresets of A and B differ."""

    prop, name = "C20", "repeat"
    configs, examples = 6, 5

    def config(self, r, i):
        return solv.random_solver(r, solv.NAMES[i % len(solv.NAMES)])

    def case(self, draw, cfg):
        return draw_case(draw, cfg)

    def check(self, cfg, case, rec):
        from coreax import Data, SupervisedData

        da, x, w, y = solv.make_data(cfg, case["a"])
        db = solv.make_data(cfg, case["b"])[0]
        sa, sb = solv.build(cfg, case["a"]["key"]), solv.build(cfg, case["b"]["key"])
        before = snap((da, sa))
        first = result(solv.solve(cfg, sa, da))
        other = result(solv.solve(cfg, sb, db))
        again = result(solv.solve(cfg, sa, da))
        equal(rec, first, again, cfg["s"] + " repeated", True)
        rec.require(same_snap(before, snap((da, sa))), "%s modified its input", cfg["s"])
        nx, nw = np.asarray(da.data), np.asarray(da.weights)
        dn = SupervisedData(nx, np.asarray(da.supervision), nw) if y is not None else Data(nx, nw)
        equal(rec, first, result(solv.solve(cfg, solv.build(cfg, case["a"]["key"]), dn)), cfg["s"] + " on numpy arrays", True)
        rec.tag(cfg["s"])
        rec.mark(not np.array_equal(first[1], other[1]))


@register
class Eager(PTest):
    """Eager reductions of A, B and A again give identical coresets for A, agree with the
    compiled reduction (in double precision on generic data, so that ties within rounding
    do not occur), and modify nothing; non-trivial: fewer points than data are kept."""

    prop, name = "C20", "eager"
    configs, examples = 3, 1

    def config(self, r, i):
        c = solv.random_solver(r, solv.NAMES[(i + 5 * (not TOL.x64)) % len(solv.NAMES)])
        if "lsq" in c:
            c["lsq"] = None
        return c

    def case(self, draw, cfg):
        return draw_case(draw, cfg)

    def check(self, cfg, case, rec):
        da = solv.make_data(cfg, case["a"])[0]
        db = solv.make_data(cfg, case["b"])[0]
        sa, sb = solv.build(cfg, case["a"]["key"]), solv.build(cfg, case["b"]["key"])
        before = snap((da, sa))
        first = result(eager(cfg, sa, da))
        other = result(eager(cfg, sb, db))
        again = result(eager(cfg, sa, da))
        equal(rec, first, again, cfg["s"] + " repeated eagerly", True)
        rec.require(same_snap(before, snap((da, sa))), "%s modified its input", cfg["s"])
        # The two halves of a dataset have the same MMD to it, so that kernel thinning
        # decides between its candidates by rounding; so does the basis of a null space
        # in recombination.
        if TOL.x64 and cfg["s"] not in ("KernelThinning", "CompressPlusPlus", "Caratheodory", "Tree"):
            equal(rec, first, result(solv.solve(cfg, sa, da)), cfg["s"] + " eager then compiled", False)
            equal(rec, other, result(solv.solve(cfg, sb, db)), cfg["s"] + " eager after another, then compiled", False)
        rec.tag(cfg["s"])
        rec.mark(len(first[0]) < cfg["n"])


@register
class Fresh(PTest):
    """History independence: for three solvers, two datasets of the same shape each are
    reduced one after the other here, and in the opposite order in a fresh process; every
    reduction gives the same coreset whatever ran before it; non-trivial: the two coresets
    of a solver differ."""

    prop, name = "C20", "fresh"
    configs, examples = 1, 1
    thorough_configs, thorough_examples = 4, 1

    def config(self, r, i):
        names = [solv.NAMES[(3 * i + k) % len(solv.NAMES)] for k in range(3)]
        return {"solvers": [solv.random_solver(r, name) for name in names], "seed": r.randrange(10**6)}

    def case(self, draw, cfg):
        return {"shift": draw(st.integers(0, 10**6))}

    def check(self, cfg, case, rec):
        items = []
        for v in range(2):
            for c in cfg["solvers"]:
                s = cfg["seed"] + case["shift"] + 7 * v
                d = {
                    "x": {"style": "normal", "n": c["n"], "d": c["d"], "seed": s, "scale": 1.0},
                    "w": {"style": "floats", "n": c["n"], "seed": s},
                    "key": s,
                }
                if c["s"] == "GreedyKernelPoints":
                    d["y"] = {"style": "normal", "n": c["n"], "d": 1, "seed": s + 1, "scale": 1.0}
                items.append([c, d])
        here = run_items(items)
        there = in_child(items[::-1])[::-1]
        for (c, _), a, b in zip(items, here, there):
            rec.require(a[0] == b[0], "%s depends on what ran before: %s, in a fresh process %s", c["s"], a[0], b[0])
            rec.close(b[1], a[1], c["s"] + " weights in a fresh process", 1e-6, 1e-7)
            rec.tag(c["s"])
        k = len(cfg["solvers"])
        rec.mark(any(here[j] != here[j + k] for j in range(k)))


def run_items(items):
    out = []
    for c, d in items:
        cs = solv.solve(c, solv.build(c, d["key"]), solv.make_data(c, d)[0])
        out.append([np.asarray(cs.unweighted_indices).tolist(), np.asarray(cs.points.weights, float).tolist()])
    return out


def in_child(items):
    import json
    import os
    import subprocess
    import sys

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    done = subprocess.run(
        [sys.executable, os.path.join(here, "vp", "child.py"), "props.c20", "run_items"],
        input=json.dumps({"x64": TOL.x64, "arg": items}),
        capture_output=True,
        text=True,
        check=False,
    )
    if done.returncode:
        raise RuntimeError("reduction in a fresh process failed: " + done.stderr[-1500:])
    return json.loads(done.stdout.splitlines()[-1])


@eqx.filter_jit
def with_state(solver, data, state):
    return solver.reduce(data, state)


@register
class State(PTest):
    """Herding, Stein thinning and greedy kernel points: reducing or refining with the
    state returned for the same data gives the coreset (and state) computed afresh, the
    coreset passed to a refinement is not modified, and repeating gives the same result;
    non-trivial: the refinement changes the coreset or more than one point is kept."""

    prop, name = "C20", "state"
    configs, examples = 3, 6

    def config(self, r, i):
        name = ("KernelHerding", "SteinThinning", "GreedyKernelPoints", "KernelHerding", "SteinThinning")[i % 5]
        c = solv.random_solver(r, name, r.choice([(9, 2, 4), (12, 1, 5), (7, 2, 7)]))
        if "lsq" in c:
            c["lsq"] = None
        return c

    def case(self, draw, cfg):
        c = solv.draw_data(
            draw, cfg, sup=cfg["s"] == "GreedyKernelPoints", zeros=False, styles=("normal", "uniform", "lattice", "dups")
        )
        c["idx"] = draw(st.lists(st.integers(0, cfg["n"] - 1), min_size=cfg["m"], max_size=cfg["m"], unique=True))
        return c

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset, Data

        data = solv.make_data(cfg, case)[0]
        s = solv.build(cfg, case["key"])
        cs0, st0 = with_state(s, data, None)
        cs1, st1 = with_state(s, data, st0)
        what = cfg["s"]
        equal(rec, result(cs0), result(cs1), what + " with its own state", True)
        rec.require(same_snap(snap(st0), snap(st1)), "%s: the state changed when passed back", what)
        start = Coresubset(Data(jnp.asarray(case["idx"])), data)
        before = snap((start, data, s))
        r0, rs0 = solv.refine_(s, start)
        r1, rs1 = solv.refine_(s, start, st0)
        r2, _ = solv.refine_(s, start)
        equal(rec, result(r0), result(r1), what + " refinement with state", True)
        equal(rec, result(r0), result(r2), what + " refinement repeated", True)
        rec.require(same_snap(snap(rs0), snap(rs1)), "%s: refinement states differ", what)
        rec.require(same_snap(before, snap((start, data, s))), "%s refinement modified its input", what)
        rec.tag(what)
        rec.mark(len(case["idx"]) > 1)
