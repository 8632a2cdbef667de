"""C11 blocked kernel means equal the dense (weighted) means."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from props.c12 import has, leaves, mag_gram
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, spread_factor, weights

SHAPES = [(7, 5, 1), (8, 8, 2), (1, 6, 2), (13, 4, 3), (9, 1, 1), (16, 11, 2), (5, 12, 1), (6, 6, 6), (150, 33, 2)]
STY = ("lattice", "normal", "dups", "clusters", "uniform", "offset")
NAMES = ref.STATIONARY + ("Linear", "Polynomial")


def blocks(r, n, m, i):
    def one(k):
        if max(n, m) > 60:  # unrolled loops over many blocks compile for minutes
            return r.choice([33, 64, max(1, k - 1), k, k + 1, k + 5, (k + 1) // 2])
        return r.choice([1, 2, 3, max(1, k - 1), k, k + 1, k + 5, max(1, k // 2)])

    kind = i % 6
    if kind == 0:
        return None
    if kind in (1, 2):
        return one(n)
    if kind == 3:
        return [None, one(m)]
    if kind == 4:
        return [one(n), None]
    return [one(n), one(m)]


def unrolls(r, i):
    return [1, 1, 2, True, [1, 3], [True, 1], False, [2, True]][i % 8]


def _tup(v):
    return tuple(v) if isinstance(v, list) else v


@eqx.filter_jit
def _mean(K, x, y, axis, bs, un):
    return K.compute_mean(x, y, axis=axis, block_size=bs, unroll=un)


@eqx.filter_jit
def _rowmean(K, x, bs, un):
    return K.gramian_row_mean(x, block_size=bs, unroll=un)


@register
class ComputeMean(PTest):
    """compute_mean over a random axis, blocking, unrolling and weights equals the dense
    weighted average of the float64 reference kernel matrix; non-trivial: blocking is
    active or weights are non-uniform, and the kernel matrix is not constant."""

    prop, name = "C11", "compute_mean"
    configs, examples = 30, 14

    def config(self, r, i):
        n, m, d = SHAPES[i % len(SHAPES)]
        return {
            "n": n,
            "m": m,
            "d": d,
            "k": ref.random_kernel(r, NAMES, d, None, depth=1, pcomp=0.3),
            "axis": [None, 0, 1][r.randrange(3)],
            "bs": blocks(r, n, m, r.randrange(6)),
            "un": unrolls(r, r.randrange(8)),
            "form": ["data", "array", "xdata", "ydata"][r.randrange(4)],
        }

    def case(self, draw, cfg):
        ws = ("ones", "const", "ints", "floats", "spread", "zeros", "tiny", "signed")
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "y": draw_points(draw, cfg["m"], cfg["d"], STY, (0.3, 1.0)),
            "wx": draw_weights(draw, cfg["n"], ws),
            "wy": draw_weights(draw, cfg["m"], ws),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        k = cfg["k"]
        x, y = points(case["x"]), points(case["y"])
        wx, wy = weights(case["wx"]), weights(case["wy"])
        form = cfg["form"]
        xw, yw = form in ("data", "xdata"), form in ("data", "ydata")
        if not xw:
            wx = np.ones(len(x))
        if not yw:
            wy = np.ones(len(y))
        xa = Data(jnp_array(x), jnp_array(wx)) if xw else jnp_array(x)
        ya = Data(jnp_array(y), jnp_array(wy)) if yw else jnp_array(y)
        K = ref.build(k)
        bs, un = _tup(cfg["bs"]), _tup(cfg["un"])
        got = np.asarray(_mean(K, xa, ya, cfg["axis"], bs, un))
        g = ref.gram(k, x, y)
        a, b = ref.norm_w(wx), ref.norm_w(wy)
        want = {None: a @ g @ b, 0: a @ g, 1: g @ b}[cfg["axis"]]
        mag = mag_gram(k, x, y) * spread_factor(wx) * spread_factor(wy)
        rec.close(got, want, f"compute_mean axis={cfg['axis']}", scale=mag)
        rec.tag(f"axis={cfg['axis']}", form, "blocked" if bs else "dense")
        rec.mark(
            (bs is not None or len(np.unique(np.r_[wx, wy])) > 1)
            and np.ptp(g) > 1e-6 * mag
        )


@register
class GramianRowMean(PTest):
    """gramian_row_mean equals the weighted mean of each row of the Gram matrix, for every
    blocking; non-trivial: Gram matrix rows have different means."""

    prop, name = "C11", "gramian_row_mean"
    configs, examples = 12, 14

    def config(self, r, i):
        n, m, d = SHAPES[i % len(SHAPES)]
        return {
            "n": n,
            "d": d,
            "k": ref.random_kernel(r, NAMES, d, None, depth=1, pcomp=0.3),
            "bs": blocks(r, n, n, r.randrange(6)),
            "un": unrolls(r, r.randrange(8)),
            "form": ["data", "array"][i % 2],
        }

    def case(self, draw, cfg):
        ws = ("ones", "const", "ints", "floats", "spread", "zeros", "tiny", "signed")
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "wx": draw_weights(draw, cfg["n"], ws),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        k = cfg["k"]
        x, wx = points(case["x"]), weights(case["wx"])
        if cfg["form"] == "array":
            wx = np.ones(len(x))
            xa = jnp_array(x)
        else:
            xa = Data(jnp_array(x), jnp_array(wx))
        got = np.asarray(_rowmean(ref.build(k), xa, _tup(cfg["bs"]), _tup(cfg["un"])))
        want = ref.norm_w(wx) @ ref.gram(k, x, x)
        mag = mag_gram(k, x, x) * spread_factor(wx)
        rec.close(got, want, "gramian_row_mean", scale=mag)
        rec.mark(np.ptp(want) > 1e-5 * mag)


@register
class ZeroPadding(PTest):
    """Appending zero-weighted points anywhere does not change any kernel mean (after
    dropping their own entries); non-trivial: padding is far from the data."""

    prop, name = "C11", "padding"
    configs, examples = 8, 12

    def config(self, r, i):
        n, m, d = SHAPES[i % len(SHAPES)]
        return {
            "n": n,
            "m": m,
            "d": d,
            "pad": r.choice([1, 2, 5]),
            "k": ref.random_kernel(r, ref.STATIONARY, d, None, depth=1, pcomp=0.3),
            "bs": blocks(r, n, m, r.randrange(6)),
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "y": draw_points(draw, cfg["m"], cfg["d"], STY, (0.3, 1.0)),
            "wx": draw_weights(draw, cfg["n"]),
            "at": draw(st.integers(-20, 20)),
            "front": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        x, y = points(case["x"]), points(case["y"])
        wx = weights(case["wx"])
        p = np.full((cfg["pad"], cfg["d"]), float(case["at"]))
        z = np.zeros(cfg["pad"])
        xp, wp = (
            (np.r_[p, x], np.r_[z, wx]) if case["front"] else (np.r_[x, p], np.r_[wx, z])
        )
        K = ref.build(cfg["k"])
        bs = _tup(cfg["bs"])
        d0 = Data(jnp_array(x), jnp_array(wx))
        d1 = Data(jnp_array(xp), jnp_array(wp))
        ya = jnp_array(y)
        for axis in (None, 0):
            a = np.asarray(_mean(K, d0, ya, axis, bs, 1), dtype=float)
            b = np.asarray(_mean(K, d1, ya, axis, bs, 1), dtype=float)
            rec.close(b, a, f"padding changed compute_mean axis={axis}", rtol=TOL.rtol / 4)
        rec.mark(case["at"] != 0)
