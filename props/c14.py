"""C14 maximum mean discrepancy and joint MMD equal their weighted definition."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from props.c11 import _tup, blocks, unrolls
from props.c12 import mag_gram
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, spread_factor, weights

SHAPES = [(8, 5, 1), (6, 6, 2), (12, 3, 2), (9, 1, 3), (1, 7, 2), (10, 10, 1), (4, 4, 4), (135, 20, 2)]
STY = ("lattice", "normal", "dups", "clusters", "uniform", "offset")
WS = ("ones", "const", "ints", "floats", "spread", "zeros", "tiny", "signed")
NAMES = ref.STATIONARY + ("Linear", "Polynomial")


@eqx.filter_jit
def _mmd(K, x, y, bs, un):
    from coreax.metrics import MMD

    return MMD(K).compute(x, y, block_size=bs, unroll=un)


@eqx.filter_jit
def _jmmd(KF, KR, a, b):
    from coreax.metrics import JMMD

    return JMMD(KF, KR).compute(a, b)


def sq_close(rec, got, want2, msg, mag):
    got = np.asarray(got)
    rec.require(got.shape == (), "%s: not a scalar: shape %s", msg, got.shape)
    rec.require(np.isfinite(got), "%s: %s is not finite", msg, got)
    rec.require(got >= 0, "%s: negative value %s", msg, got)
    tol = TOL.pick(2e-5, 1e-11) * max(mag, 1e-6)
    rec.require(
        abs(float(got) ** 2 - max(0.0, want2)) <= tol,
        "%s: squared value %.8g, reference %.8g (tolerance %.2g)",
        msg,
        float(got) ** 2,
        want2,
        tol,
    )


@register
class Mmd(PTest):
    """MMD of two weighted data sets vs the float64 definition, its symmetry, and its
    invariance to blocking and weight scale; non-trivial: reference MMD^2 > 0.001 of the
    kernel scale."""

    prop, name = "C14", "mmd"
    configs, examples = 22, 14

    def config(self, r, i):
        n, m, d = SHAPES[i % len(SHAPES)]
        return {
            "n": n,
            "m": m,
            "d": d,
            "k": ref.random_kernel(r, NAMES, d, None, depth=1, pcomp=0.3),
            "bs": blocks(r, n, m, r.randrange(6)),
            "un": unrolls(r, r.randrange(8)),
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "y": draw_points(draw, cfg["m"], cfg["d"], STY, (0.3, 1.0)),
            "wx": draw_weights(draw, cfg["n"], WS),
            "wy": draw_weights(draw, cfg["m"], WS),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        k = cfg["k"]
        x, y = points(case["x"]), points(case["y"])
        wx, wy = weights(case["wx"]), weights(case["wy"])
        K = ref.build(k)
        dx, dy = Data(jnp_array(x), jnp_array(wx)), Data(jnp_array(y), jnp_array(wy))
        want = ref.mmd2(k, x, wx, y, wy)
        mag = mag_gram(k, np.r_[x, y], np.r_[x, y])
        mag *= max(spread_factor(wx), spread_factor(wy)) ** 2
        bs, un = _tup(cfg["bs"]), _tup(cfg["un"])
        got = _mmd(K, dx, dy, bs, un)
        sq_close(rec, got, want, "MMD", mag)
        sq_close(rec, _mmd(K, dy, dx, bs, un), want, "MMD with arguments swapped", mag)
        dx3 = Data(jnp_array(x), jnp_array(3 * wx))
        sq_close(rec, _mmd(K, dx3, dy, bs, un), want, "MMD with rescaled weights", mag)
        rec.tag("blocked" if bs else "dense", case["wx"]["style"], case["wy"]["style"])
        rec.mark(want > 1e-3 * mag)


@register
class MmdMetric(PTest):
    """Metric behaviour: zero between equal weighted distributions written differently
    (permuted, split into repeated points), triangle inequality; non-trivial: the point
    set has at least two distinct points."""

    prop, name = "C14", "mmd_metric"
    configs, examples = 8, 12

    def config(self, r, i):
        n, d = [(5, 1), (6, 2), (4, 3)][i % 3]
        return {"n": n, "d": d, "k": ref.random_kernel(r, NAMES, d, None, 1, 0.3)}

    def case(self, draw, cfg):
        n = cfg["n"]
        return {
            "x": draw_points(draw, n, cfg["d"], STY, (0.3, 1.0)),
            "z": draw_points(draw, n, cfg["d"], STY, (0.3, 1.0)),
            "w": draw_weights(draw, n),
            "wz": draw_weights(draw, n),
            "perm": draw(st.permutations(list(range(2 * n)))),
            "split": draw(st.lists(st.integers(1, 3), min_size=n, max_size=n)),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        k, n = cfg["k"], cfg["n"]
        x, z = points(case["x"]), points(case["z"])
        w, wz = weights(case["w"]), weights(case["wz"])
        K = ref.build(k)
        # the same distribution: every point repeated twice with its weight split
        f = np.array(case["split"]) / 4.0
        perm = np.array(case["perm"])
        x2 = np.r_[x, x][perm]
        w2 = np.r_[w * f, w * (1 - f)][perm]
        dx = Data(jnp_array(x), jnp_array(w))
        d2 = Data(jnp_array(x2), jnp_array(w2))
        dz = Data(jnp_array(z), jnp_array(wz))
        mag = mag_gram(k, np.r_[x, z], np.r_[x, z])
        sq_close(rec, _mmd(K, dx, d2, None, 1), 0.0, "MMD of equal distributions", mag)
        sq_close(rec, _mmd(K, dx, dx, None, 1), 0.0, "MMD of a data set with itself", mag)
        slack = 3 * np.sqrt(TOL.pick(2e-5, 1e-11) * mag)
        u2 = Data(d2.data, jnp_array(np.ones(2 * n)))
        ab, bc, ac = (
            float(_mmd(K, *p, None, 1)) for p in ((dx, dz), (dz, u2), (dx, u2))
        )
        rec.require(ac <= ab + bc + slack, "triangle inequality %g > %g + %g", ac, ab, bc)
        rec.mark(len(np.unique(x, axis=0)) > 1)


@register
class Jmmd(PTest):
    """Joint MMD on weighted supervised data vs the tensor-product definition;
    non-trivial: reference JMMD^2 > 0.001 of the kernel scale."""

    prop, name = "C14", "jmmd"
    configs, examples = 14, 14

    def config(self, r, i):
        n, m, d = SHAPES[i % len(SHAPES)]
        return {
            "n": n,
            "m": m,
            "d": d,
            "p": [1, 2][r.randrange(2)],
            "kf": ref.random_kernel(r, NAMES, d, None, 1, 0.2),
            "kr": ref.random_kernel(r, NAMES, d, None, 1, 0.2),
        }

    def case(self, draw, cfg):
        out = {}
        for t, n in (("x", cfg["n"]), ("y", cfg["m"])):
            out[t] = draw_points(draw, n, cfg["d"], STY, (0.3, 1.0))
            out["s" + t] = draw_points(draw, n, cfg["p"], STY, (0.3, 1.0))
            out["w" + t] = draw_weights(draw, n, WS)
        return out

    def check(self, cfg, case, rec):
        from coreax import SupervisedData

        kf, kr = cfg["kf"], cfg["kr"]
        D, R = {}, {}
        for t in "xy":
            x, s = points(case[t]), points(case["s" + t])
            w = weights(case["w" + t])
            R[t] = (x, s, ref.norm_w(w))
            D[t] = SupervisedData(jnp_array(x), jnp_array(s), jnp_array(w))

        def e(a, b):
            g = ref.gram(kf, a[0], b[0]) * ref.gram(kr, a[1], b[1])
            return a[2] @ g @ b[2]

        want = e(R["x"], R["x"]) + e(R["y"], R["y"]) - 2 * e(R["x"], R["y"])
        ax, as_ = np.r_[R["x"][0], R["y"][0]], np.r_[R["x"][1], R["y"][1]]
        mag = mag_gram(kf, ax, ax) * mag_gram(kr, as_, as_)
        mag *= max(spread_factor(R[t][2]) for t in "xy") ** 2
        KF, KR = ref.build(kf), ref.build(kr)
        sq_close(rec, _jmmd(KF, KR, D["x"], D["y"]), want, "JMMD", mag)
        sq_close(rec, _jmmd(KF, KR, D["y"], D["x"]), want, "JMMD swapped", mag)
        sq_close(rec, _jmmd(KF, KR, D["x"], D["x"]), 0.0, "JMMD with itself", mag)
        rec.mark(want > 1e-3 * mag)


@register
class CoresetMetric(PTest):
    """A coreset's own metric method equals the metric between its source data and its
    weighted points; non-trivial: the coreset is not the whole data set."""

    prop, name = "C14", "coreset_compute_metric"
    configs, examples = 5, 12

    def config(self, r, i):
        n, m, d = [(8, 3, 1), (7, 5, 2), (6, 6, 2)][i % 3]
        return {
            "n": n,
            "m": m,
            "d": d,
            "k": ref.random_kernel(r, ref.STATIONARY, d, None, 1, 0.3),
            "kind": ["subset", "pseudo"][(i // 3) % 2],
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "y": draw_points(draw, cfg["m"], cfg["d"], STY, (0.3, 1.0)),
            "wx": draw_weights(draw, cfg["n"], WS),
            "wy": draw_weights(draw, cfg["m"], WS),
            "idx": draw(
                st.lists(st.integers(0, cfg["n"] - 1), min_size=cfg["m"], max_size=cfg["m"])
            ),
        }

    def check(self, cfg, case, rec):
        import jax.numpy as jnp

        from coreax import Data
        from coreax.coreset import Coresubset, PseudoCoreset
        from coreax.metrics import MMD

        k = cfg["k"]
        x, wx, wy = points(case["x"]), weights(case["wx"]), weights(case["wy"])
        dx = Data(jnp_array(x), jnp_array(wx))
        if cfg["kind"] == "subset":
            idx = np.array(case["idx"])
            y = x[idx]
            c = Coresubset(Data(jnp.asarray(idx), jnp_array(wy)), dx)
        else:
            y = points(case["y"])
            c = PseudoCoreset(Data(jnp_array(y), jnp_array(wy)), dx)
        want = ref.mmd2(k, x, wx, y, wy)
        mag = mag_gram(k, np.r_[x, y], np.r_[x, y])
        mag *= max(spread_factor(wx), spread_factor(wy)) ** 2
        got = eqx.filter_jit(_cm)(c, MMD(ref.build(k)))
        sq_close(rec, got, want, "compute_metric", mag)
        rec.mark(cfg["m"] < cfg["n"])


def _cm(c, metric):
    return c.compute_metric(metric)
