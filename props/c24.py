"""C24 the benchmark solver suite consists of the documented solvers."""

import math

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref, solv
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, weights

STY = ("normal", "uniform", "clusters", "skew", "offset")




def median_distance(x):
    d = np.sqrt(((x[:, None] - x[None]) ** 2).sum(-1))
    return float(np.sqrt(np.median(d[np.triu_indices_from(d, k=1)] ** 2) / 2))


def kde_score(x, q):
    """Gradient of the log of the Gaussian KDE with Scott's bandwidth, float64."""
    n, d = x.shape
    cov = np.atleast_2d(np.cov(x.T, aweights=np.full(n, 1 / n))) * n ** (-2.0 / (d + 4))
    prec = np.linalg.inv(cov)
    diff = q[:, None] - x[None]
    e = -0.5 * np.einsum("abi,ij,abj->ab", diff, prec, diff)
    p = np.exp(e - e.max(1, keepdims=True))
    p /= p.sum(1, keepdims=True)
    return -np.einsum("ab,abi,ij->aj", p, diff, prec), np.linalg.cond(cov)


def explicit(name, m, kernel, key, delta, g, stein=None):
    """The solver the documentation describes, written out."""
    import jax.numpy as jnp
    from coreax.benchmark_util import IterativeKernelHerding
    from coreax.solvers import (
        CompressPlusPlus,
        KernelHerding,
        KernelThinning,
        RandomSample,
        RPCholesky,
        SteinThinning,
    )

    if name == "Random Sample":
        return RandomSample(m, key)
    if name == "RP Cholesky":
        return RPCholesky(coreset_size=m, kernel=kernel, random_key=key)
    if name == "Kernel Herding":
        return KernelHerding(m, kernel)
    if name == "Stein Thinning":
        return SteinThinning(coreset_size=m, kernel=stein, regularise=True)
    if name == "Kernel Thinning":
        return KernelThinning(
            coreset_size=m, kernel=kernel, random_key=key, delta=delta,
            sqrt_kernel=kernel.get_sqrt_kernel(16),
        )
    if name == "Compress++":
        return CompressPlusPlus(
            coreset_size=m, kernel=kernel, random_key=key, delta=delta,
            sqrt_kernel=kernel.get_sqrt_kernel(16), g=g,
        )
    if name == "Iterative Probabilistic Herding (constant)":
        kw = {"probabilistic": True, "num_iterations": 5}
    elif name == "Iterative Herding":
        kw = {"probabilistic": False, "num_iterations": 5}
    else:
        kw = {
            "probabilistic": True,
            "num_iterations": 10,
            "t_schedule": jnp.array([(10 + 10 * k) ** -3.0 for k in range(10)]),
        }
    return IterativeKernelHerding(
        coreset_size=m, kernel=kernel, temperature=0.001, random_key=key, **kw
    )


NAMES = (
    "Random Sample",
    "RP Cholesky",
    "Kernel Herding",
    "Stein Thinning",
    "Kernel Thinning",
    "Compress++",
    "Iterative Probabilistic Herding (constant)",
    "Iterative Herding",
    "Iterative Probabilistic Herding (cubic)",
)
PLAIN = ("Random Sample", "RP Cholesky", "Compress++")  # never in a map-reduce


def delta_of(n):
    if n > 1 and math.log(n) > 1:
        return 1 / (n * math.log(math.log(n)))
    if n > 1:
        return 1 / (n * math.log(n))
    return 1 / n


@register
class Delta(PTest):
    """The kernel-thinning delta of a data size follows the three documented cases;
    non-trivial: always."""

    prop, name = "C24", "delta"
    configs, examples = 1, 40

    def case(self, draw, cfg):
        return {"n": draw(st.one_of(st.integers(1, 30), st.integers(1, 10**6)))}

    def check(self, cfg, case, rec):
        from coreax.benchmark_util import calculate_delta

        n = case["n"]
        got = float(np.asarray(calculate_delta(n)).reshape(()))
        tol = TOL.pick(1e-5, 1e-12) * (100 if n == 3 else 1)
        rec.require(abs(got / delta_of(n) - 1) <= tol, "delta(%d) = %.9g, documented %.9g", n, got, delta_of(n))
        rec.mark()


@register
class Suite(PTest):
    """Every solver of the benchmark suite gives the coresubset of the documented solver
    built by hand (kernel with the median-heuristic length scale, documented options, the
    given key), inside a map-reduce exactly when a leaf size is given; non-trivial: the
    data is larger than the leaf size, or none is given."""

    prop, name = "C24", "suite"
    configs, examples = 2, 2

    def config(self, r, i):
        n, m, g = r.choice([(24, 4, 0), (40, 8, 1), (30, 4, 1), (64, 8, 0)])
        return {
            "n": n, "m": m, "g": g, "d": r.choice([1, 2, 3]),
            "leaf": r.choice([None, 2 * m + 4, 2 * m + 1, n + 3]) if i % 2 else None,
            "which": r.sample(NAMES, 3) + ["Kernel Herding", "Stein Thinning"][i % 2 : i % 2 + 1],
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "w": draw_weights(draw, cfg["n"], ("ones", "floats", "ints")),
            "key": draw(st.integers(0, 10**6)),
        }

    def check(self, cfg, case, rec):
        import warnings

        import jax
        from coreax import Data
        from coreax.benchmark_util import initialise_solvers
        from coreax.solvers import MapReduce

        n, m, leaf = cfg["n"], cfg["m"], cfg["leaf"]
        x, w = points(case["x"]), weights(case["w"])
        data = Data(jnp_array(x), jnp_array(w))
        key = jax.random.key(case["key"])
        suite = initialise_solvers(data, key, cfg["g"], leaf)
        rec.require(set(suite) == set(NAMES), "solver names %s", sorted(suite))
        ls = median_distance(x)
        for name in dict.fromkeys(cfg["which"]):
            got = suite[name](m)
            base = got
            if leaf is not None and name not in PLAIN:
                rec.require(isinstance(got, MapReduce), "%s with a leaf size is a %s", name, type(got).__name__)
                base = got.base_solver
            kernel = stein = None
            if name != "Random Sample":
                kernel = base.kernel
                if name == "Stein Thinning":
                    stein, kernel = kernel, kernel.base_kernel
                rec.close(kernel.length_scale, ls, f"{name}: length scale", rtol=TOL.pick(1e-5, 1e-10))
                q = x[: min(n, 12)]
                want = ref.gram({"k": "SquaredExponential", "ls": ls, "os": 1.0}, q, q)
                rec.close(kernel.compute(jnp_array(q), jnp_array(q)), want, f"{name}: kernel")
            if stein is not None:
                want, cond = kde_score(x, q)
                if cond < 1e3:
                    sc = np.asarray(eqx.filter_jit(lambda a: jax.vmap(stein.score_function)(a))(jnp_array(q)))
                    rec.close(sc, want, "Stein score of the benchmark", rtol=TOL.pick(2e-3, 1e-8))
            own = explicit(name, m, kernel, key, delta_of(n), cfg["g"], stein)
            if leaf is not None and name not in PLAIN:
                own = MapReduce(own, leaf_size=leaf)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                a, _ = solv.reduce_(got, data)
                b, _ = solv.reduce_(own, data)
            ia, ib = np.asarray(a.unweighted_indices), np.asarray(b.unweighted_indices)
            rec.require(len(ia) == m, "%s: %d points instead of %d", name, len(ia), m)
            rec.require(
                np.array_equal(ia, ib), "%s (leaf size %s) selected %s, the documented solver %s", name, leaf, ia, ib
            )
            rec.tag(name, "map-reduce" if leaf and name not in PLAIN else "direct")
        rec.mark(leaf is None or n > leaf)


@register
class Iterative(PTest):
    """The iterative herding wrapper returns what the documented iterated reduction of
    kernel herding returns, with and without a temperature schedule and a cached state;
    non-trivial: more than one iteration."""

    prop, name = "C24", "iterative"
    configs, examples = 3, 8

    def config(self, r, i):
        c = solv.random_solver(r, "KernelHerdingIter")
        c["prob"] = i % 3 != 0
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg)
        case["state"] = draw(st.booleans())
        case["sched"] = [draw(st.sampled_from([0.01, 0.1, 1.0])) for _ in range(cfg["iters"])]
        return case

    def check(self, cfg, case, rec):
        from coreax.benchmark_util import IterativeKernelHerding

        data, *_ = solv.make_data(cfg, case)
        plain = solv.build({**cfg, "s": "KernelHerding"}, case["key"])
        sched = jnp_array(case["sched"]) if cfg["sched"] else None
        kw = {f: getattr(plain, f) for f in plain.__dataclass_fields__}
        it = IterativeKernelHerding(**kw, num_iterations=cfg["iters"], t_schedule=sched)
        state = solv.reduce_(plain, data)[1] if case["state"] else None
        a, sa = solv.reduce_(it, data, state)
        b, sb = solv.iterative_(plain, data, cfg["iters"], sched)
        ia, ib = np.asarray(a.unweighted_indices), np.asarray(b.unweighted_indices)
        rec.require(np.array_equal(ia, ib), "iterative herding %s, iterated reduction %s", ia, ib)
        rec.close(sa.gramian_row_mean, sb.gramian_row_mean, "state")
        rec.tag("schedule" if cfg["sched"] else "constant", "probabilistic" if cfg["prob"] else "greedy")
        rec.mark(cfg["iters"] > 1)
