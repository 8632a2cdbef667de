"""Solver descriptions (JSON), builders, and the checks every coresubset satisfies."""

import functools

import equinox as eqx
import numpy as np

from props import ref
from props.c11 import _tup, blocks, unrolls
from vp.core import TOL, Inconclusive, draw_points, draw_weights, jnp_array, points, weights

STY = ("lattice", "normal", "dups", "clusters", "uniform", "offset", "skew", "line")


@eqx.filter_jit
def reduce_(solver, data, state=None):
    return solver.reduce(data, state)


@eqx.filter_jit
def refine_(solver, coreset, state=None):
    return solver.refine(coreset, state)


@eqx.filter_jit
def iterative_(solver, data, n_it, sched):
    return solver.reduce_iterative(data, num_iterations=n_it, t_schedule=sched)


# shapes (n, d, m) with 1 <= m <= n
SHAPES = [(12, 2, 5), (9, 1, 9), (16, 3, 4), (20, 2, 3), (7, 1, 1), (24, 2, 11), (10, 2, 7), (5, 5, 3), (140, 3, 8), (40, 6, 13)]

# compress++: (n, m, g) valid combinations
CPP = [(16, 4, 0), (17, 3, 1), (20, 6, 1), (18, 8, 1), (30, 4, 2), (65, 8, 0), (6, 2, 0)]

NAMES = (
    "RandomSample",
    "KernelHerding",
    "SteinThinning",
    "RPCholesky",
    "GreedyKernelPoints",
    "KernelThinning",
    "CompressPlusPlus",
    "MapReduceH",
    "MapReduceS",
    "Caratheodory",
    "Tree",
    "KernelHerdingIter",
)


def random_solver(r, name, shape=None):
    """A JSON description of a solver together with the data shape it is applied to."""
    n, d, m = shape or r.choice(SHAPES)
    c = {"s": name, "n": n, "d": d, "m": m, "k": ref.random_base(r, ref.STATIONARY, d)}
    c["unique"] = True
    if name == "RandomSample":
        c.update(weighted=r.random() < 0.5, unique=r.random() < 0.7)
    elif name in ("KernelHerding", "KernelHerdingIter", "MapReduceH"):
        c.update(
            unique=r.random() < 0.7 or name == "MapReduceH",
            bs=blocks(r, n, n, r.randrange(6)) if name != "MapReduceH" else None,
            un=unrolls(r, r.randrange(8)),
            prob=r.random() < 0.35,
            temp=r.choice([0.01, 0.3, 1.0, 5.0]),
        )
        if name == "KernelHerdingIter":
            c.update(iters=r.choice([1, 2, 3]), sched=r.random() < 0.5)
    elif name in ("SteinThinning", "MapReduceS"):
        c["k"] = ref.random_base(r, ref.SMOOTH, d)
        c.update(
            unique=r.random() < 0.7 or name == "MapReduceS",
            reg=r.random() < 0.5 and name != "MapReduceS",
            how=r.choice(["given", "default"]),
            score=ref.random_score(r),
            bs=None,
            un=1,
        )
    elif name == "RPCholesky":
        c.update(unique=r.random() < 0.7)
    elif name == "GreedyKernelPoints":
        c.update(
            unique=r.random() < 0.7,
            lam=ref.rnd(r, 0.05, 1.0),
            cb=r.choice([None, None, 1, 2, max(1, n // 2), n, n + 3]),
            lb=r.choice([None, None, 1, max(1, n // 2), n + 1]),
            lsq=r.choice([None, None, "rand"]),
        )
    elif name == "KernelThinning":
        c.update(delta=ref.rnd(r, 0.01, 0.5), ks=ref.random_base(r, ref.STATIONARY, d))
    elif name == "CompressPlusPlus":
        c["n"], c["m"], g = r.choice(CPP)
        c.update(g=g, delta=ref.rnd(r, 0.01, 0.5), ks=ref.random_base(r, ref.STATIONARY, d))
    elif name in ("Caratheodory", "Tree"):
        c.update(
            mode=r.choice(["implicit-explicit", "implicit", "explicit"]),
            tf=r.choice([None, "quad", "trig"]),
            trf=r.choice([2, 2, 3, 4]),
        )
    if name.startswith("MapReduce"):
        c["n"], c["m"], leaf = r.choice(
            [(20, 3, 8), (33, 2, 6), (17, 4, 5), (24, 5, 8), (13, 4, 6), (9, 2, 16), (50, 4, 9)]
        )
        c.update(leaf=leaf, tree=r.choice(["kd", "ball"]))
    return c


@functools.lru_cache(maxsize=None)
def test_function(name):
    import jax.numpy as jnp

    if name == "quad":
        return lambda x: jnp.concatenate([x, x**2])
    if name == "trig":
        return lambda x: jnp.stack([jnp.sin(x[0]), jnp.cos(x[0]), x.sum()])
    return None


def feats(name, x):
    """Reference test functions, with the constant function prepended."""
    if name is None:
        f = x
    elif name == "quad":
        f = np.c_[x, x**2]
    else:
        f = np.c_[np.sin(x[:, 0]), np.cos(x[:, 0]), x.sum(1)]
    return np.c_[np.ones(len(x)), f]


@functools.lru_cache(maxsize=None)
def _approx(seed):
    from coreax.least_squares import RandomisedEigendecompositionSolver
    import jax.random as jr

    return RandomisedEigendecompositionSolver(jr.key(seed), oversampling_parameter=30)


def build(c, seed):
    import jax
    import coreax.solvers as cs
    from coreax.kernels import SteinKernel
    from sklearn.neighbors import BallTree, KDTree

    name, m = c["s"], c["m"]
    key = jax.random.key(seed)
    K = ref.build(c["k"])
    if name == "RandomSample":
        return cs.RandomSample(m, random_key=key, weighted=c["weighted"], unique=c["unique"])
    if name in ("KernelHerding", "KernelHerdingIter", "MapReduceH"):
        h = cs.KernelHerding(
            m,
            kernel=K,
            unique=c["unique"],
            block_size=_tup(c["bs"]),
            unroll=_tup(c["un"]),
            probabilistic=c["prob"],
            temperature=c["temp"],
            random_key=key,
        )
    if name in ("SteinThinning", "MapReduceS"):
        if c["how"] == "given":
            K = SteinKernel(K, ref.build_score(c["score"]))
        h = cs.SteinThinning(
            m,
            kernel=K,
            unique=c["unique"],
            regularise=c["reg"],
            block_size=_tup(c["bs"]),
            unroll=_tup(c["un"]),
        )
    if name.startswith("MapReduce"):
        tree = KDTree if c["tree"] == "kd" else BallTree
        return cs.MapReduce(h, leaf_size=c["leaf"], tree_type=tree)
    if name in ("KernelHerding", "KernelHerdingIter", "SteinThinning"):
        return h
    if name == "RPCholesky":
        return cs.RPCholesky(m, random_key=key, kernel=K, unique=c["unique"])
    if name == "GreedyKernelPoints":
        return cs.GreedyKernelPoints(
            m,
            random_key=key,
            feature_kernel=K,
            regularisation_parameter=c["lam"],
            unique=c["unique"],
            candidate_batch_size=c["cb"],
            loss_batch_size=c["lb"],
            least_squares_solver=_approx(3) if c["lsq"] else None,
        )
    if name == "KernelThinning":
        return cs.KernelThinning(
            m, kernel=K, random_key=key, delta=c["delta"], sqrt_kernel=ref.build(c["ks"])
        )
    if name == "CompressPlusPlus":
        return cs.CompressPlusPlus(
            m, g=c["g"], kernel=K, random_key=key, delta=c["delta"], sqrt_kernel=ref.build(c["ks"])
        )
    kw = {"test_functions": test_function(c["tf"]), "mode": c["mode"]}
    if name == "Caratheodory":
        return cs.CaratheodoryRecombination(**kw)
    assert name == "Tree"
    return cs.TreeRecombination(tree_reduction_factor=c["trf"], **kw)


def solve(c, solver, data, rec=None):
    """Run a solver description; returns the coreset."""
    if c["s"] == "KernelHerdingIter":
        sched = jnp_array(np.linspace(1.0, 0.1, c["iters"])) if c["sched"] else None
        return iterative_(solver, data, c["iters"], sched)[0]
    if c.get("mode") == "explicit":
        return solver.reduce(data)[0]
    return reduce_(solver, data)[0]


def draw_data(draw, c, sup=None, zeros=True, styles=STY, scales=(0.3, 1.0), tiny=False):
    """Draw data for a solver description (a superset of what each solver needs)."""
    from hypothesis import strategies as st

    n, d = c["n"], c["d"]
    if sup is None:
        sup = c["s"] == "GreedyKernelPoints" or c.get("sup", False)
    ws = ("ones", "const", "ints", "floats", "spread") + (("zeros",) if zeros else ())
    ws += ("tiny",) if tiny else ()
    out = {
        "x": draw_points(draw, n, d, styles, scales),
        "w": draw_weights(draw, n, ws),
        "key": draw(st.integers(0, 10**6)),
    }
    if sup:
        out["y"] = draw_points(draw, n, 1, ("normal", "lattice", "uniform", "dups"))
    return out


def supports_zeros(c):
    """Whether the solver documents that zero-weighted points are never selected."""
    return c["s"] in ("KernelHerding", "SteinThinning", "KernelHerdingIter") or (
        c["s"] == "RandomSample" and c["weighted"]
    )


def make_data(c, case):
    """(coreax data, x, w, y) with the weights made admissible for the solver."""
    from coreax import Data, SupervisedData

    x, w = points(case["x"]), weights(case["w"])
    if not supports_zeros(c) and c["s"] not in ("Caratheodory", "Tree"):
        w = np.where(w > 0, w, 1.0)
    elif supports_zeros(c):
        # enough selectable points
        z = np.flatnonzero(w == 0)
        for j in z:
            if (w > 0).sum() >= c["m"]:
                break
            w[j] = 1.0
    if c.get("reg"):
        check_spread(x, w)
    if c.get("how") == "default":
        pass
    if "y" in case:
        y = points(case["y"])
        return SupervisedData(jnp_array(x), jnp_array(y), jnp_array(w)), x, w, y
    return Data(jnp_array(x), jnp_array(w)), x, w, None


def check_spread(x, w):
    """The Gaussian KDE of the entropic term needs a non-singular covariance."""
    p = w / w.sum()
    if (w > 0).sum() < x.shape[1] + 2:
        raise Inconclusive
    ev = np.linalg.eigvalsh(np.atleast_2d(np.cov(x.T, aweights=p)))
    if not ev[0] > 1e-2 * max(1.0, ev[-1]):
        raise Inconclusive


def indices_of(coreset):
    return np.asarray(coreset.unweighted_indices)


def valid(rec, c, coreset, data, x, y=None, what=""):
    """Everything a coresubset of ``data`` must satisfy; returns its index vector."""
    from coreax import Coresubset

    rec.require(isinstance(coreset, Coresubset), "%s is not a coresubset", what)
    idx = indices_of(coreset)
    n = len(x)
    rec.require(idx.ndim == 1, "%s index vector has shape %s", what, idx.shape)
    rec.require(np.issubdtype(idx.dtype, np.integer), "%s indices of type %s", what, idx.dtype)
    rec.require(
        idx.size == 0 or (idx.min() >= 0 and idx.max() < n),
        "%s index outside 0..%d: %s",
        what,
        n - 1,
        idx,
    )
    rec.require(len(coreset) == len(idx), "%s length %s != %s", what, len(coreset), len(idx))
    p = coreset.points
    rec.require(
        np.array_equal(np.asarray(p.data), np.asarray(data.data)[idx]),
        "%s points differ from the data at the indices %s",
        what,
        idx,
    )
    if y is not None:
        rec.require(
            np.array_equal(np.asarray(p.supervision), np.asarray(data.supervision)[idx]),
            "%s responses differ from the data at the indices %s",
            what,
            idx,
        )
    pw = np.asarray(p.weights)
    rec.require(
        pw.shape == idx.shape and np.all(np.isfinite(pw)) and np.all(pw >= -TOL.pick(1e-6, 1e-12)),
        "%s weights %s",
        what,
        pw,
    )
    q = coreset.pre_coreset_data
    rec.require(
        np.array_equal(np.asarray(q.data), np.asarray(data.data))
        and np.array_equal(np.asarray(q.weights), np.asarray(data.weights)),
        "%s does not refer to the original data",
        what,
    )
    return idx
