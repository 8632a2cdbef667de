"""C15 kernel Stein discrepancy and AMCMD equal their definitions."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from props.c11 import _tup, blocks, unrolls
from props.c14 import sq_close
from vp.core import (
    TOL,
    Inconclusive,
    PTest,
    draw_points,
    draw_weights,
    jnp_array,
    points,
    register,
    weights,
)

STY = ("lattice", "normal", "clusters", "uniform", "skew", "dups", "offset")
WS = ("ones", "const", "ints", "floats", "spread", "zeros")


@eqx.filter_jit
def _ksd(K, sm, x, y, kw):
    from coreax.metrics import KSD

    return KSD(K, score_matching=sm).compute(x, y, **kw)


@eqx.filter_jit
def _amcmd(KF, KR, lam, a, b, c):
    from coreax.metrics import AMCMD

    return AMCMD(KF, KR, lam).compute(a, b, weighting_data=c)


def fat(x, w, lim=1e-2):
    """Whether the weighted covariance is well conditioned."""
    w = w / w.sum()
    if (w > 0).sum() < x.shape[1] + 2:
        return False
    c = np.atleast_2d(np.cov(x.T, aweights=w))
    ev = np.linalg.eigvalsh(c)
    return ev[0] > lim * max(1.0, ev[-1]) and ev[-1] < 1e3


def stein_setup(cfg, kx):
    """(kernel under test, score matching object, reference base, reference score)."""
    from coreax.kernels import SteinKernel
    from coreax.score_matching import KernelDensityMatching

    base = ref.build(cfg["k"])
    how = cfg["how"]
    ls = cfg["ls"]
    kde = {"s": "kde", "data": kx, "ls": ls}
    if how == "given":  # Stein kernel with an analytic score
        return SteinKernel(base, ref.build_score(cfg["score"])), None, cfg["score"]
    if how == "override":  # the score matching replaces the kernel's own score
        K = SteinKernel(base, ref.build_score(cfg["score"]))
        return K, KernelDensityMatching(ls), kde
    if how == "fit":  # plain kernel, explicit score matching
        return base, KernelDensityMatching(ls), kde
    # plain kernel, default score matching: its own length scale
    return base, None, {"s": "kde", "data": kx, "ls": cfg["k"]["ls"]}


HOWS = ("given", "override", "fit", "default")
SH = [(9, 6, 1), (12, 5, 2), (8, 8, 2), (14, 3, 3), (10, 1, 2), (6, 4, 4), (130, 9, 2)]


@register
class Ksd(PTest):
    """KSD (all correction options, all ways of specifying the score, weighted data, any
    blocking) vs the float64 definition; non-trivial: the squared reference is positive
    and more than 0.001 of the Stein kernel scale."""

    prop, name = "C15", "ksd"
    configs, examples = 18, 14

    def config(self, r, i):
        n, m, d = SH[r.randrange(len(SH))]
        return {
            "n": n,
            "m": m,
            "d": d,
            "k": ref.random_base(r, ref.SMOOTH, d, None),
            "score": ref.random_score(r),
            "how": HOWS[i % 4],
            "ls": ref.rnd(r, 0.6, 2.0),
            "lap": r.random() < 0.5,
            "reg": r.random() < 0.5,
            "bs": blocks(r, m, m, r.randrange(6)),
            "un": unrolls(r, r.randrange(8)),
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "y": draw_points(draw, cfg["m"], cfg["d"], STY, (0.3, 1.0)),
            "wx": draw_weights(draw, cfg["n"], WS),
            "wy": draw_weights(draw, cfg["m"], WS),
            "near": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        x, y = points(case["x"]), points(case["y"])
        if case["near"]:  # comparison data close to the reference data
            y = np.float32(x[: cfg["m"]] + 0.125 * (y[: cfg["m"]] - y.mean(0))).astype(
                float
            )
        wx, wy = weights(case["wx"]), weights(case["wy"])
        K, sm, score = stein_setup(cfg, x)
        if score["s"] == "kde":
            gap = np.sqrt(((y[:, None] - x[None]) ** 2).sum(-1)).min(1).max()
            if gap > 6 * score["ls"]:
                raise Inconclusive  # density underflows: score undefined in float32
        bw = cfg["k"]["ls"]
        if cfg["reg"]:
            if not fat(x, wx):
                raise Inconclusive
            gap = np.abs(y - x.mean(0)).max() / np.sqrt(np.var(x, 0).min())
            if gap / bw > 40:
                raise Inconclusive
        s, lap = ref.scores_at(score, y)
        wn = ref.norm_w(wy)
        g = ref.stein_gram(cfg["k"], y, y, s, s)
        want = wn @ g @ wn
        mag = ref.stein_mag(cfg["k"], y, y, s, s)
        m = len(y)
        if cfg["lap"]:
            want += lap.sum() / m**2
            mag += lap.sum() / m**2
            if score["s"] == "kde":
                mag += 4 / score["ls"] ** 2
        if cfg["reg"]:
            lp = ref.kde_logpdf(x, wx, y, bw)
            want -= lp.mean() / m
            mag += 5 * np.abs(lp).mean() / m + 1
        kw = {
            "laplace_correct": cfg["lap"],
            "regularise": cfg["reg"],
            "block_size": _tup(cfg["bs"]),
            "unroll": _tup(cfg["un"]),
        }
        dx, dy = Data(jnp_array(x), jnp_array(wx)), Data(jnp_array(y), jnp_array(wy))
        got = _ksd(K, sm, dx, dy, kw)
        off = max(1.0, np.abs(np.r_[x, y]).max()) ** 2
        sq_close(rec, got, want, "KSD", mag * off)
        rec.tag(cfg["how"], "lap" if cfg["lap"] else "nolap", "reg" if cfg["reg"] else "noreg")
        rec.mark(want > 1e-3 * mag)


@register
class Amcmd(PTest):
    """AMCMD vs the float64 definition with any weighting data; sample weights have no
    influence; swapping the data sets (with explicit weighting data) changes nothing;
    non-trivial: reference AMCMD^2 > 0.001 of the response kernel scale."""

    prop, name = "C15", "amcmd"
    configs, examples = 12, 14

    def config(self, r, i):
        n, m, q, d, p = [(7, 5, 4, 1, 1), (6, 6, 6, 2, 1), (9, 3, 1, 2, 2), (4, 8, 5, 1, 3)][
            i % 4
        ]
        return {
            "n": n,
            "m": m,
            "q": q,
            "d": d,
            "p": p,
            "kf": ref.random_base(r, ref.STATIONARY, d, None),
            "kr": ref.random_base(r, ref.STATIONARY, p, None),
            "lam": ref.rnd(r, 0.05, 1.5),
            "wd": i % 3 != 0,
        }

    def case(self, draw, cfg):
        n, m, q, d, p = (cfg[c] for c in "nmqdp")
        return {
            "x1": draw_points(draw, n, d, STY, (0.3, 1.0)),
            "x2": draw_points(draw, m, d, STY, (0.3, 1.0)),
            "x3": draw_points(draw, q, d, STY, (0.3, 1.0)),
            "y1": draw_points(draw, n, p, STY, (0.3, 1.0)),
            "y2": draw_points(draw, m, p, STY, (0.3, 1.0)),
            "w1": draw_weights(draw, n, WS),
            "w2": draw_weights(draw, m, WS),
        }

    def check(self, cfg, case, rec):
        from coreax import Data, SupervisedData

        x1, x2, x3, y1, y2 = (points(case[c]) for c in ("x1", "x2", "x3", "y1", "y2"))
        kf, kr, lam = cfg["kf"], cfg["kr"], cfg["lam"]
        if not cfg["wd"]:
            x3 = x1
        a1 = np.linalg.solve(ref.gram(kf, x1, x1) + lam * np.eye(len(x1)), ref.gram(kf, x1, x3))
        a2 = np.linalg.solve(ref.gram(kf, x2, x2) + lam * np.eye(len(x2)), ref.gram(kf, x2, x3))
        t1 = np.einsum("iq,ij,jq->", a1, ref.gram(kr, y1, y1), a1)
        t2 = np.einsum("iq,ij,jq->", a2, ref.gram(kr, y2, y2), a2)
        t3 = np.einsum("iq,ij,jq->", a1, ref.gram(kr, y1, y2), a2)
        want = (t1 + t2 - 2 * t3) / len(x3)
        amp = max(np.abs(a1).sum(0).max(), np.abs(a2).sum(0).max(), 1.0)
        kr0 = float(ref.diag(kr, y1[:1])[0])
        cond = 1 + len(x1) * float(ref.diag(kf, x1[:1])[0]) / lam
        mag = kr0 * amp**2 * max(1.0, cond / 5)
        off = max(1.0, np.abs(np.r_[x1, x2]).max(), np.abs(np.r_[y1, y2]).max())
        KF, KR = ref.build(kf), ref.build(kr)
        mk = lambda x, y, w: SupervisedData(jnp_array(x), jnp_array(y), jnp_array(w))  # noqa: E731
        d1 = mk(x1, y1, np.ones(len(x1)))
        d2 = mk(x2, y2, np.ones(len(x2)))
        w1 = mk(x1, y1, weights(case["w1"]))
        w2 = mk(x2, y2, weights(case["w2"]))
        c = Data(jnp_array(x3)) if cfg["wd"] else None
        sq_close(rec, _amcmd(KF, KR, lam, d1, d2, c), want, "AMCMD", mag * off)
        sq_close(rec, _amcmd(KF, KR, lam, w1, w2, c), want, "AMCMD of weighted data", mag * off)
        if cfg["wd"]:
            sq_close(rec, _amcmd(KF, KR, lam, d2, d1, c), want, "AMCMD swapped", mag * off)
        sq_close(rec, _amcmd(KF, KR, lam, d1, d1, c), 0.0, "AMCMD with itself", mag * off)
        rec.tag("weighting" if cfg["wd"] else "default")
        rec.mark(want > 1e-3 * kr0)
