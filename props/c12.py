"""C12 kernel values: documented formula, algebra, symmetry, PSD, shape conventions."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from vp.core import TOL, PTest, draw_points, jnp_array, points, register

SHAPES = [(5, 4, 1), (6, 3, 2), (4, 4, 3), (7, 1, 2), (1, 6, 4), (8, 5, 1), (5, 5, 5), (20, 17, 2)]


def kernel_cfg(r, i, depth=1, pcomp=0.5, names=ref.BASE):
    n, m, d = SHAPES[i % len(SHAPES)]
    if i % 2 == 0:
        k = ref.random_base(r, names, d, i // 2)
    else:
        k = ref.random_kernel(r, names, d, None, depth=2, pcomp=0.9)
    if has(k, "Poisson"):
        d = 1
    return {"n": n, "m": m, "d": d, "k": k}


def has(k, name):
    if k["k"] == name:
        return True
    return any(has(k[c], name) for c in ("a", "b") if c in k)


def leaves(k):
    if "a" in k:
        out = leaves(k["a"])
        return out + (leaves(k["b"]) if "b" in k else [])
    return [k["k"]]


STY = ("lattice", "normal", "dups", "clusters", "uniform")


def domain(k, x):
    return np.mod(x, 2 * np.pi).astype(np.float32).astype(float) if has(k, "Poisson") else x


def draw_pair(draw, cfg, scales=(0.3, 1.0)):
    x = draw_points(draw, cfg["n"], cfg["d"], STY, scales)
    y = draw_points(draw, cfg["m"], cfg["d"], STY, scales)
    # plant coincidences between x and y
    tie = draw(st.booleans())
    return {"x": x, "y": y, "tie": tie}


def pair(cfg, case):
    x, y = domain(cfg["k"], points(case["x"])), domain(cfg["k"], points(case["y"]))
    if case["tie"]:
        y[0] = x[-1]
    return x, y


@eqx.filter_jit
def _vals(K, xs, ys):
    return (
        K.compute(xs, ys),
        K.compute(ys, xs),
        K.compute_elementwise(xs[0], ys[0]),
        K.compute(xs[-1], ys[-1]),
    )


@register
class Values(PTest):
    """Kernel matrix of a (composite) kernel equals the documented formula and algebra;
    non-trivial: at least two distinct kernel values in the matrix."""

    prop, name = "C12", "values"
    configs, examples = 36, 14

    def config(self, r, i):
        return kernel_cfg(r, i)

    def case(self, draw, cfg):
        return draw_pair(draw, cfg)

    def check(self, cfg, case, rec):
        k = cfg["k"]
        x, y = pair(cfg, case)
        K = ref.build(k)
        xs, ys = jnp_array(x), jnp_array(y)
        want = ref.gram(k, x, y)
        mag = mag_gram(k, x, y)
        got, got_t, e, v = (np.asarray(o) for o in _vals(K, xs, ys))
        rec.close(got, want, "kernel matrix vs documented formula", scale=mag)
        rec.close(
            got_t, want.T, "kernel symmetry", scale=mag
        )
        rec.close(e, want[0, 0], "single-pair evaluation", scale=mag)
        # single points given as vectors
        rec.close(v, want[-1:, -1:], "vector-vector evaluation", scale=mag)
        if cfg["d"] == 1 and case["tie"]:
            s = np.asarray(K.compute(float(x[0, 0]), float(y[0, 0])))
            rec.close(s, want[:1, :1], "scalar-scalar evaluation", scale=mag)
        rec.tag(*leaves(k), "composite" if "a" in k else "base")
        rec.mark(len(np.unique(np.round(want, 6))) > 1)


def mag_gram(k, x, y):
    """Magnitude of the intermediate terms (for rounding tolerances)."""
    m = np.max(np.abs(ref.gram(k, x, y)))
    for nm in ("Linear", "Polynomial"):
        if has(k, nm):
            m = max(m, np.max(np.abs(ref.gram(k, np.abs(x), np.abs(y)))))
    return float(m)


@register
class Psd(PTest):
    """Gram matrix on a point set (with repeats) is symmetric positive semi-definite;
    non-trivial: Gram matrix has rank at least 2."""

    prop, name = "C12", "psd"
    configs, examples = 12, 12

    def config(self, r, i):
        d = [1, 2, 3][i % 3]
        names = [
            b
            for b in ref.BASE
            if d == 1 or b not in ("Periodic", "LocallyPeriodic", "Poisson")
        ]
        k = ref.random_kernel(r, names, d, i, depth=1, pcomp=0.6)
        return {"n": [5, 8, 11][(i // 3) % 3], "d": d, "k": k}

    def case(self, draw, cfg):
        return {"x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0))}

    def check(self, cfg, case, rec):
        k = cfg["k"]
        x = domain(k, points(case["x"]))
        g = np.asarray(ref.build(k).compute(jnp_array(x), jnp_array(x)), dtype=float)
        mag = mag_gram(k, x, x)
        tol = TOL.pick(1e-4, 1e-9) * mag * len(x)
        rec.require(np.all(np.isfinite(g)), "Gram matrix has non-finite entries")
        rec.require(np.max(np.abs(g - g.T)) <= tol, "Gram matrix not symmetric")
        ev = np.linalg.eigvalsh((g + g.T) / 2)
        rec.require(ev[0] >= -tol, "Gram matrix eigenvalue %g < 0 (%s)", ev[0], k["k"])
        rec.mark(ev[-2] > 1e-3 * ev[-1])


@register
class SqrtKernel(PTest):
    """Square-root kernel of the squared exponential integrates back to the kernel
    (closed form); non-trivial: output scale and length scale differ from 1."""

    prop, name = "C12", "sqrt_kernel"
    configs, examples = 4, 6

    def config(self, r, i):
        return {"dim": [1, 2, 3, 5][i % 4]}

    def case(self, draw, cfg):
        return {
            "ls": draw(st.sampled_from([0.4, 0.75, 1.0, 1.7, 3.0])),
            "os": draw(st.sampled_from([0.3, 1.0, 2.5, 4.0])),
        }

    def check(self, cfg, case, rec):
        import coreax.kernels as ck

        q = ck.SquaredExponentialKernel(case["ls"], case["os"]).get_sqrt_kernel(
            cfg["dim"]
        )
        d = cfg["dim"]
        l2, o2 = float(q.length_scale), float(q.output_scale)
        # int q(x,z) q(y,z) dz = o2^2 (pi l2^2)^(d/2) exp(-|x-y|^2/(4 l2^2))
        rec.close(o2**2 * (np.pi * l2**2) ** (d / 2), case["os"], "amplitude", rtol=1e-5)
        rec.close(4 * l2**2, 2 * case["ls"] ** 2, "length scale", rtol=1e-5)
        rec.mark(case["ls"] != 1 and case["os"] != 1)
