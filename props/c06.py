"""C06 map-reduce: merges partition solutions into a solution for the whole data."""

import functools

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import c03, c04, ref, solv
from vp.core import PTest, draw_points, jnp_array, points, register


@functools.lru_cache(maxsize=None)
def _topm():
    import jax.numpy as jnp
    from coreax import Coresubset, Data
    from coreax.solvers.base import CoresubsetSolver, ExplicitSizeSolver, PaddingInvariantSolver

    class TopM(CoresubsetSolver, ExplicitSizeSolver, PaddingInvariantSolver):
        """Selects the rows with the largest priority; zero-weighted rows come last.

        The top m of a union is the top m of the tops of its parts, so any correct
        map-reduce over it is exact. Selected rows keep their weight.
        """

        by_response: bool = False

        def reduce(self, dataset, solver_state=None):
            v = dataset.supervision[:, 0] if self.by_response else dataset.data[:, 0]
            v = jnp.where(dataset.weights > 0, v, -jnp.inf)
            idx = jnp.argsort(-v)[: self.coreset_size]
            return Coresubset(Data(idx, dataset.weights[idx]), dataset), solver_state

    return TopM


# (n, m, leaf): partitions that divide evenly, unevenly, one leaf, near-degenerate ratios
SIZES = [
    (20, 3, 8), (33, 2, 6), (17, 4, 5), (24, 5, 8), (13, 4, 6), (9, 2, 16), (50, 4, 9),
    (64, 4, 8), (65, 7, 8), (31, 1, 2), (100, 3, 10), (12, 5, 6), (40, 9, 11), (7, 2, 3),
    (8, 3, 8), (10, 3, 9), (128, 5, 16), (127, 6, 7), (21, 10, 12), (90, 8, 20),
]


@functools.lru_cache(maxsize=None)
def tree(name):
    from sklearn.neighbors import BallTree, KDTree

    return KDTree if name == "kd" else BallTree


@register
class Exact(PTest):
    """Map-reduce over a mergeable base solver (the m rows of largest value, of a feature
    or of the response) terminates and returns exactly the m best rows of the whole data
    set, with the right original indices, for every size combination, partition tree and
    offset from the origin; non-trivial: there is more than one partition."""

    prop, name = "C06", "exact"
    configs, examples = 20, 10
    case_timeout = 100

    def config(self, r, i):
        if r.random() < 0.6:
            n, m, leaf = SIZES[i % len(SIZES)]
        else:
            m = r.randrange(1, 9)
            leaf = m + r.randrange(1, 10)
            n = r.randrange(m, 12 * leaf)
        return {
            "n": n,
            "m": m,
            "leaf": leaf,
            "d": r.choice([1, 2, 3]),
            "tree": r.choice(["kd", "ball"]),
            "sup": r.random() < 0.4,
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(
                draw, cfg["n"], cfg["d"], ("normal", "clusters", "offset", "uniform", "lattice", "dups")
            ),
            "perm": draw(st.integers(0, 10**6)),
            "shift": draw(st.sampled_from([0.0, 10.0, -10.0])),
            "neg": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        from coreax import Data, SupervisedData
        from coreax.solvers import MapReduce

        n, m = cfg["n"], cfg["m"]
        rng = np.random.default_rng(case["perm"])
        x = points(case["x"]) + case["shift"]
        pri = rng.permutation(n).astype(float) - (n + 5.0 if case["neg"] else 0.0)
        w = rng.integers(1, 9, n).astype(float)
        if cfg["sup"]:
            data = SupervisedData(jnp_array(x), jnp_array(pri), jnp_array(w))
        else:
            x[:, 0] = pri * 0.125
            data = Data(jnp_array(x), jnp_array(w))
        solver = MapReduce(
            _topm()(m, by_response=cfg["sup"]), leaf_size=cfg["leaf"], tree_type=tree(cfg["tree"])
        )
        out, _ = solv.reduce_(solver, data)
        idx = solv.valid(rec, cfg, out, data, x, cfg["sup"] or None, "map-reduce")
        want = np.argsort(-pri)[:m]
        rec.require(
            sorted(idx.tolist()) == sorted(want.tolist()),
            "map-reduce of top-%d with leaf size %d over %d rows returned %s, expected %s",
            m,
            cfg["leaf"],
            n,
            sorted(idx.tolist()),
            sorted(want.tolist()),
        )
        got_w = np.asarray(out.points.weights)
        rec.require(
            np.allclose(got_w, w[idx]), "coreset weights %s do not belong to the points", got_w
        )
        parts = n > cfg["leaf"]
        rec.tag("partitioned" if parts else "one leaf", cfg["tree"])
        rec.mark(parts)


@register
class SingleLeaf(PTest):
    """When the data fit in one leaf, map-reduce is the base solver; non-trivial: the
    coreset is smaller than the data and larger than one."""

    prop, name = "C06", "one_leaf"
    configs, examples = 3, 10

    def config(self, r, i):
        c = c03.conf(r, i) if i % 2 else c04.conf(r, i)
        c["leaf"] = max(c["n"], c["m"] + 1) + r.choice([0, 0, 3])
        c["tree"] = r.choice(["kd", "ball"])
        return c

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, styles=c04.STY)

    def check(self, cfg, case, rec):
        from coreax.solvers import MapReduce

        data, x, w, _ = solv.make_data(cfg, case)
        base = c03.herding(cfg, 0) if cfg["s"] == "KernelHerding" else c04.stein(cfg)
        a, _ = solv.reduce_(base, data)
        b, _ = solv.reduce_(MapReduce(base, leaf_size=cfg["leaf"], tree_type=tree(cfg["tree"])), data)
        ia, ib = solv.indices_of(a), solv.indices_of(b)
        if not np.array_equal(ia, ib):
            # only choices tied within rounding may differ (separate compilations)
            from props import greedy

            if cfg["s"] == "KernelHerding":
                gram = ref.gram(cfg["k"], x, x)
                score = c03.herding_score(gram @ ref.norm_w(w))
                tol = 2 * c03.tol_of(cfg["k"], gram)
            else:
                gram, score, tol = c04.criterion(cfg, x, w)
                tol *= 2
            s = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
            greedy.same_up_to_ties(rec, ia, ib, s, score, tol, "map-reduce on one leaf")
        rec.checks += 1
        rec.tag(cfg["s"])
        rec.mark(1 < cfg["m"] < cfg["n"])


@register
class Coverage(PTest):
    """Map-reduced herding and Stein thinning never return padding: with data offset far
    from the origin and zero-weighted padding at the origin, all points are data rows,
    unique, of positive weight, and the MMD of a map-reduced herding coreset of two far
    clusters contains points of both; non-trivial: more than one partition."""

    prop, name = "C06", "coverage"
    configs, examples = 4, 8
    case_timeout = 100

    def config(self, r, i):
        n, m, leaf = r.choice([(20, 4, 8), (33, 3, 7), (50, 4, 9), (41, 6, 10), (24, 5, 8)])
        return {
            "n": n, "m": m, "leaf": leaf, "d": r.choice([1, 2]), "s": "KernelHerding",
            "k": ref.random_base(r, ("SquaredExponential", "Laplacian", "PCIMQ"), 2),
            "unique": True, "bs": None, "un": 1, "tree": r.choice(["kd", "ball"]),
        }

    def case(self, draw, cfg):
        return {
            "key": draw(st.integers(0, 10**6)),
            "seed": draw(st.integers(0, 10**6)),
            "gap": draw(st.sampled_from([20.0, -30.0])),
            "off": draw(st.sampled_from([0.0, 15.0])),
        }

    def check(self, cfg, case, rec):
        from coreax import Data
        from coreax.solvers import MapReduce

        n = cfg["n"]
        rng = np.random.default_rng(case["seed"])
        side = rng.permutation(np.arange(n) % 2)
        x = rng.normal(size=(n, cfg["d"])) * 0.5 + case["off"]
        x[:, 0] += side * case["gap"]
        x = x.astype(np.float32).astype(np.float64)
        data = Data(jnp_array(x))
        solver = MapReduce(
            c03.herding(cfg, 0), leaf_size=cfg["leaf"], tree_type=tree(cfg["tree"])
        )
        out, _ = solv.reduce_(solver, data)
        idx = solv.valid(rec, cfg, out, data, x, None, "map-reduce")
        rec.require(len(set(idx.tolist())) == cfg["m"], "repeated index in %s", idx)
        seen = set(side[idx].tolist())
        rec.require(seen == {0, 1}, "map-reduced herding ignored a cluster: %s", idx)
        rec.mark()
