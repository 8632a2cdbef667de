"""C21 inadmissible configurations are rejected, admissible ones accepted."""

import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from props import ref
from vp.core import PTest, Violation, draw_points, jnp_array, points, register

# Values near the boundaries of every documented domain (JSON-able).
REALS = [-1e30, -2.5, -1.0, -1e-3, -1e-12, -0.0, 0.0, 1e-12, 1e-3, 0.5, 0.999999, 1.0, 1.000001, 2.0, 7, 3, 1, 0, -1, 1e6]
NUMS = [-3, -1, 0, 1, 2, 3, 5, 20, -0.5, 0.5, 1.5, 2.0, 3.0]


def pos(v):
    return v > 0


def nonneg(v):
    return v >= 0


def int_ge(lo):
    return lambda v: isinstance(v, int) and v >= lo


KERNELS = {
    "LinearKernel": {"output_scale": pos, "constant": nonneg},
    "PolynomialKernel": {"output_scale": pos, "constant": nonneg, "degree": int_ge(2)},
    "ExponentialKernel": {"length_scale": pos, "output_scale": pos},
    "LaplacianKernel": {"length_scale": pos, "output_scale": pos},
    "SquaredExponentialKernel": {"length_scale": pos, "output_scale": pos},
    "PCIMQKernel": {"length_scale": pos, "output_scale": pos},
    "RationalQuadraticKernel": {"length_scale": pos, "output_scale": pos, "relative_weighting": nonneg},
    "MaternKernel": {"length_scale": pos, "output_scale": pos, "degree": int_ge(0)},
    "PeriodicKernel": {"length_scale": pos, "output_scale": pos},
    "PoissonKernel": {"index": lambda v: 0 < v < 1, "output_scale": pos},
}


def attempt(rec, fn, ok, what, exc=(ValueError, TypeError)):
    """``fn`` must succeed if ``ok`` and raise one of ``exc`` otherwise."""
    rec.checks += 1
    try:
        out = fn()
    except exc as e:
        if ok:
            raise Violation(f"{what}: admissible, but {type(e).__name__}: {str(e)[:100]}") from e
        return None
    except Exception as e:
        raise Violation(f"{what}: {type(e).__name__} raised: {str(e)[:100]}") from e
    if not ok:
        raise Violation(f"{what}: inadmissible, but accepted")
    return out


@register
class Kernels(PTest):
    """Kernel constructors and kernel arithmetic accept exactly the admissible parameter
    values; an accepted kernel keeps the values it was given; non-trivial: some parameter
    is not its default."""

    prop, name = "C21", "kernels"
    configs, examples = 10, 25

    def config(self, r, i):
        return {"k": sorted(KERNELS)[i % len(KERNELS)]}

    def case(self, draw, cfg):
        params = {}
        for name, dom in KERNELS[cfg["k"]].items():
            if draw(st.integers(0, 3)):
                vals = NUMS if name == "degree" else REALS
                good = [v for v in vals if dom(v)]
                # mostly admissible, so that single faults dominate
                params[name] = draw(st.sampled_from(good if draw(st.booleans()) else vals))
        return {
            "p": params, "c": draw(st.sampled_from(REALS)), "pow": draw(st.sampled_from(NUMS)),
            "bad": draw(st.sampled_from(["x", None, [1], "obj", "type"])),
        }

    def check(self, cfg, case, rec):
        import coreax.kernels as ck

        cls = getattr(ck, cfg["k"])
        dom = KERNELS[cfg["k"]]
        ok = all(dom[n](v) for n, v in case["p"].items())
        what = f"{cfg['k']}({case['p']})"
        k = attempt(rec, lambda: cls(**case["p"]), ok, what, ValueError)
        if k is not None:
            for n, v in case["p"].items():
                rec.require(float(getattr(k, n)) == float(v), "%s.%s is %r", what, n, getattr(k, n))
        k = cls()
        c = case["c"]
        for op, fn in (
            ("k + c", lambda: k + c), ("c + k", lambda: c + k), ("k * c", lambda: k * c), ("c * k", lambda: c * k),
        ):
            attempt(rec, fn, c >= 0, f"{op} with c={c!r}", ValueError)
        attempt(rec, lambda: k**case["pow"], int_ge(1)(case["pow"]), f"k ** {case['pow']!r}", ValueError)
        bad = {"obj": object(), "type": cls}.get(case["bad"], case["bad"]) if isinstance(case["bad"], str) else case["bad"]
        if not isinstance(bad, (int, float)):
            attempt(rec, lambda: k + bad, False, f"k + {bad!r}")
            attempt(rec, lambda: k * bad, False, f"k * {bad!r}")
            for comp in (ck.AdditiveKernel, ck.ProductKernel):
                attempt(rec, lambda: comp(k, bad), False, f"{comp.__name__}(k, {bad!r})", TypeError)
                attempt(rec, lambda: comp(bad, k), False, f"{comp.__name__}({bad!r}, k)", TypeError)
                attempt(rec, lambda: comp(k, k), True, f"{comp.__name__}(k, k)")
            attempt(rec, lambda: ck.PowerKernel(bad, 2), False, f"PowerKernel({bad!r}, 2)", TypeError)
            attempt(rec, lambda: ck.SteinKernel(bad, lambda x: x), False, f"SteinKernel({bad!r})", TypeError)
            attempt(rec, lambda: ck.SteinKernel(k, lambda x: x), True, "SteinKernel(k)")
        rec.tag("admissible" if ok else "inadmissible")
        rec.mark(len(case["p"]) > 0)


@functools.lru_cache(maxsize=None)
def _K():
    import coreax.kernels as ck

    return ck.SquaredExponentialKernel()


SIZES = [-4, -1, 0, 1, 2, 5, 30]


@register
class Constructors(PTest):
    """Solvers, metrics, least-squares solvers, approximate kernels and score matching
    accept exactly the admissible constructor values; non-trivial: always."""

    prop, name = "C21", "constructors"
    configs, examples = 3, 30

    def config(self, r, i):
        return {"i": i}

    def case(self, draw, cfg):
        s = st.sampled_from
        return {
            "m": draw(s(SIZES)), "leaf": draw(s([1, 2, 3, 4, 5, 6, 10, 31])), "bm": draw(s([1, 2, 3, 5, 30])),
            "lam": draw(s(REALS)),
            "ov": draw(s(NUMS)), "pi": draw(s(NUMS)),
            "rc": draw(s([None, -1, -1.0, -2, -0.5, -1e-9, 0, 0.0, 1e-6, 1.0, -0.999])),
            "nk": draw(s(SIZES)), "nt": draw(s(SIZES)),
            "ne": draw(s(NUMS)), "bs": draw(s(NUMS)), "nv": draw(s(NUMS)), "nn": draw(s(NUMS)),
            "one": draw(st.integers(0, 3)),
            "mode": draw(s(["implicit", "explicit", "implicit-explicit", "", "IMPLICIT", "explicit ", "tree", "none"])),
        }

    def check(self, cfg, case, rec):
        import coreax.approximation as ca
        import coreax.solvers as cs
        import jax
        import jax.random as jr
        from coreax.kernels import SteinKernel
        from coreax.least_squares import RandomisedEigendecompositionSolver
        from coreax.metrics import AMCMD
        from coreax.score_matching import SlicedScoreMatching

        K, key, m = _K(), jr.key(0), case["m"]
        solvers = {
            "RandomSample": lambda m: cs.RandomSample(m, key),
            "KernelHerding": lambda m: cs.KernelHerding(m, K),
            "SteinThinning": lambda m: cs.SteinThinning(m, SteinKernel(K, lambda x: -x)),
            "RPCholesky": lambda m: cs.RPCholesky(m, random_key=key, kernel=K),
            "GreedyKernelPoints": lambda m: cs.GreedyKernelPoints(m, random_key=key, feature_kernel=K),
            "KernelThinning": lambda m: cs.KernelThinning(m, kernel=K, random_key=key, delta=0.1, sqrt_kernel=K),
            "CompressPlusPlus": lambda m: cs.CompressPlusPlus(
                m, g=1, kernel=K, random_key=key, delta=0.1, sqrt_kernel=K
            ),
        }
        for name, make in solvers.items():
            s = attempt(rec, lambda: make(m), m > 0, f"{name} of size {m}", ValueError)
            if s is not None:
                rec.require(s.coreset_size == m, "%s.coreset_size %s", name, s.coreset_size)
        for name in ("CaratheodoryRecombination", "TreeRecombination"):
            attempt(
                rec, lambda: getattr(cs, name)(mode=case["mode"]),
                case["mode"] in ("implicit", "explicit", "implicit-explicit"), f"{name} mode {case['mode']!r}", ValueError,
            )
        with warnings.catch_warnings(record=True) as seen:
            warnings.simplefilter("always")
            leaf, bm = case["leaf"], case["bm"]
            for name in ("KernelHerding", "SteinThinning", "RPCholesky", "RandomSample"):
                del seen[:]
                out = attempt(
                    rec, lambda: cs.MapReduce(solvers[name](bm), leaf_size=leaf), leaf > bm,
                    f"MapReduce of {name}({bm}) with leaf size {leaf}", ValueError,
                )
                padding = issubclass(getattr(cs, name), cs.PaddingInvariantSolver)
                if out is not None:
                    rec.require(
                        bool(seen) == (not padding), "MapReduce of %s (padding invariant: %s) warned: %s",
                        name, padding, [str(w.message) for w in seen],
                    )
            attempt(
                rec, lambda: cs.MapReduce(cs.CaratheodoryRecombination(), leaf_size=leaf), False,
                "MapReduce of recombination", ValueError,
            )
        attempt(rec, lambda: AMCMD(K, K, case["lam"]), case["lam"] >= 0, f"AMCMD regularisation {case['lam']!r}", ValueError)
        ov, pi, rc = case["ov"], case["pi"], case["rc"]
        # single faults: all but one parameter admissible
        if case["one"] != 0:
            ov = ov if int_ge(1)(ov) else 5
        if case["one"] != 1:
            pi = pi if int_ge(0)(pi) else 1
        ok = int_ge(1)(ov) and int_ge(0)(pi) and (rc is None or rc >= 0 or rc == -1)
        attempt(
            rec, lambda: RandomisedEigendecompositionSolver(key, ov, pi, rc), ok,
            f"RandomisedEigendecompositionSolver(oversampling {ov!r}, iterations {pi!r}, rcond {rc!r})", ValueError,
        )
        for name in ("MonteCarlo", "ANNchor", "Nystrom"):
            cls = getattr(ca, name + "ApproximateKernel")
            nk, nt = case["nk"], case["nt"]
            attempt(
                rec, lambda: cls(K, random_key=key, num_kernel_points=nk, num_train_points=nt), nk > 0 and nt > 0,
                f"{name} with {nk} kernel and {nt} training points", ValueError,
            )
        p = {"num_epochs": case["ne"], "batch_size": case["bs"], "num_random_vectors": case["nv"], "num_noise_models": case["nn"]}
        lows = {"num_epochs": 0, "batch_size": 0, "num_random_vectors": 1, "num_noise_models": 1}
        for j, n in enumerate(p):
            if j != case["one"] and not int_ge(lows[n])(p[n]):
                p[n] = 1
        attempt(
            rec, lambda: SlicedScoreMatching(key, jax.random.rademacher, **p), all(int_ge(lows[n])(v) for n, v in p.items()),
            f"SlicedScoreMatching({p})", ValueError,
        )
        rec.mark()




@register
class Sizes(PTest):
    """Reducing to more points than the dataset has is rejected with a ValueError by every
    solver (eagerly and compiled), as are Compress++ parameters that do not fit the data,
    explicit recombination under compilation, and approximations with more points than
    data; the boundary sizes are accepted; non-trivial: always."""

    prop, name = "C21", "sizes"
    configs, examples = 7, 6
    NAMES = ("RandomSample", "KernelHerding", "SteinThinning", "RPCholesky", "GreedyKernelPoints", "KernelThinning", "other")

    def config(self, r, i):
        return {"s": self.NAMES[i % len(self.NAMES)], "n": r.randint(2, 6), "unique": r.random() < 0.5}

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], 2, ("normal", "uniform")),
            "extra": draw(st.sampled_from([1, 2, 7])), "key": draw(st.integers(0, 1000)),
            "jit": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        import coreax.approximation as ca
        import coreax.solvers as cs
        import equinox as eqx
        import jax.random as jr
        from coreax import Data, SupervisedData
        from coreax.kernels import SteinKernel
        from coreax.least_squares import RandomisedEigendecompositionSolver

        K, key, n = _K(), jr.key(case["key"]), cfg["n"]
        x = jnp_array(points(case["x"]))
        data, sup = Data(x), SupervisedData(x, x[:, :1])
        u = cfg["unique"]
        make = {
            "RandomSample": lambda m: cs.RandomSample(m, key, unique=u),
            "KernelHerding": lambda m: cs.KernelHerding(m, K, unique=u),
            "SteinThinning": lambda m: cs.SteinThinning(m, SteinKernel(K, _score), unique=u, regularise=False),
            "RPCholesky": lambda m: cs.RPCholesky(m, random_key=key, kernel=K, unique=u),
            "GreedyKernelPoints": lambda m: cs.GreedyKernelPoints(m, random_key=key, feature_kernel=K, unique=u),
            "KernelThinning": lambda m: cs.KernelThinning(m, kernel=K, random_key=key, delta=0.1, sqrt_kernel=K),
        }
        big = n + case["extra"]
        if cfg["s"] in make:
            d = sup if cfg["s"] == "GreedyKernelPoints" else data
            s = make[cfg["s"]](big)
            fn = (lambda: _reduce(s, d)) if case["jit"] else (lambda: s.reduce(d))
            attempt(rec, fn, False, f"{cfg['s']} of size {big} from {n} points", ValueError)
            ok = attempt(rec, lambda: _reduce(make[cfg["s"]](n), d), True, f"{cfg['s']} of all {n} points")
            rec.require(len(ok[0]) == n, "%s returned %d of %d points", cfg["s"], len(ok[0]), n)
            if cfg["s"] == "KernelHerding":
                mr = cs.MapReduce(make["KernelHerding"](big), leaf_size=big + 2)
                attempt(rec, lambda: mr.reduce(data), False, f"MapReduce of size {big} from {n} points", ValueError)
        else:
            top = int(np.floor(np.log(n) / np.log(4) + 1e-12))
            cpp = lambda m, g: cs.CompressPlusPlus(m, g=g, kernel=K, random_key=key, delta=0.1, sqrt_kernel=K)
            for m, g in ((big, 0), (1, top + 1), (1, -1), (2**top + 1, 0)):
                attempt(rec, lambda: cpp(m, g).reduce(data), False, f"Compress++ size {m}, g {g}, {n} points", ValueError)
            ex = cs.CaratheodoryRecombination(mode="explicit")
            attempt(rec, lambda: _reduce(ex, data), False, "explicit recombination under jit", ValueError)
            attempt(rec, lambda: ex.reduce(data), True, "explicit recombination")
            for name in ("MonteCarlo", "ANNchor", "Nystrom"):
                cls = getattr(ca, name + "ApproximateKernel")
                mk = lambda nk, nt: cls(K, random_key=key, num_kernel_points=nk, num_train_points=nt)
                attempt(rec, lambda: mk(2, big).gramian_row_mean(x), False, f"{name}: {big} training points of {n}", ValueError)
                if name != "ANNchor":
                    attempt(rec, lambda: mk(big + 1, 2).gramian_row_mean(x), False, f"{name}: {big} kernel points of {n}", ValueError)
            rd = RandomisedEigendecompositionSolver(key, 2)
            for shape in ((n, n + 1), (n,), (1, n, n)):
                attempt(
                    rec, lambda: rd.randomised_eigendecomposition(jnp_array(np.ones(shape))), False,
                    f"eigendecomposition of shape {shape}", ValueError,
                )
        rec.tag(cfg["s"], "jit" if case["jit"] else "eager")
        rec.mark()


def _score(x):
    return -x


import equinox as _eqx  # noqa: E402


@_eqx.filter_jit
def _reduce(solver, data):
    return solver.reduce(data)
