"""C04 (regularised) Stein thinning selects by the documented Stein criterion."""

import numpy as np
from hypothesis import strategies as st

from props import greedy, ref, solv
from vp.core import TOL, PTest, register


def bandwidth(bw, w, d):
    p = ref.norm_w(w)
    neff = 1 / (p**2).sum()
    if bw is None or bw == "scott":
        return neff ** (-1 / (d + 4))
    if bw == "silverman":
        return (neff * (d + 2) / 4) ** (-1 / (d + 4))
    return bw


def stein(c, **kw):
    import coreax.solvers as cs
    from coreax.kernels import SteinKernel

    c = {**c, **kw}
    k = ref.build(c["k"])
    if not c.get("plain"):
        k = SteinKernel(k, ref.build_score(c["score"]))
    return cs.SteinThinning(
        c["m"],
        kernel=k,
        unique=c["unique"],
        regularise=c["reg"],
        regulariser_lambda=c["lam"],
        kde_bw_method=c["bw"],
        block_size=solv._tup(c["bs"]),
        unroll=solv._tup(c["un"]),
    )


def criterion(c, x, w):
    """(Stein kernel matrix, objective(stepper), tolerance) in float64."""
    if c.get("plain"):
        # documented default: the score of a kernel density estimate of the data
        score = {"s": "kde", "data": x, "ls": c["kde_ls"]}
    else:
        score = c["score"]
    sx, lap = ref.scores_at(score, x)
    gram = ref.stein_gram(c["k"], x, x, sx, sx)
    mag = ref.stein_mag(c["k"], x, x, sx, sx)
    base = np.diag(gram).copy()
    logp = np.zeros(len(x))
    lam = 0.0
    if c["reg"]:
        base = base + lap
        lam = c["lam"] if c["lam"] is not None else 1.0 / c["m"]
        logp = ref.kde_logpdf(x, w, x, bandwidth(c["bw"], w, x.shape[1]))
    tol = TOL.pick(2e-5, 1e-10) * (
        mag * (c["m"] + 1) + np.abs(lap).max() + c["m"] * lam * (1 + np.abs(logp).max())
    )

    def score_fn(s):
        return -(base + 2 * s.penalty - (s.i + 1) * lam * logp)

    return gram, score_fn, tol


def conf(r, i):
    n, d, m = solv.SHAPES[i % len(solv.SHAPES)]
    return {
        "s": "SteinThinning",
        "n": n,
        "d": d,
        "m": m,
        "k": ref.random_base(r, ref.SMOOTH, d, i),
        "score": ref.random_score(r),
        "unique": r.random() < 0.6,
        "reg": r.random() < 0.65,
        "lam": r.choice([None, None, 0.0, ref.rnd(r, 0.05, 3.0)]),
        "bw": r.choice([None, None, "silverman", "scott", 0.5]),
        "bs": solv.blocks(r, n, n, r.randrange(6)),
        "un": solv.unrolls(r, r.randrange(8)),
    }


STY = ("normal", "uniform", "clusters", "offset", "skew", "lattice")


@register
class Reduce(PTest):
    """Every point selected by Stein thinning minimises k_p(x,x) + 2 sum_j k_p(x, x_j)
    (plus the positive Laplacian and minus lambda*t*log-density when regularised) over the
    selectable points, in a float64 replay; non-trivial: at least two choices are decided
    by more than the rounding tolerance."""

    prop, name = "C04", "reduce"
    configs, examples = 10, 16

    def config(self, r, i):
        return conf(r, i)

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, styles=STY, sup=draw(st.integers(0, 3)) == 0)

    def check(self, cfg, case, rec):
        data, x, w, _ = solv.make_data(cfg, case)
        out, _ = solv.reduce_(stein(cfg), data)
        gram, score, tol = criterion(cfg, x, w)
        idx = solv.indices_of(out)
        s = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
        dec = greedy.follow(rec, idx, s, score, tol, "Stein thinning")
        rec.tag("regularised" if cfg["reg"] else "plain", cfg["score"]["s"])
        if cfg["reg"]:
            rec.tag(f"lambda {'default' if cfg['lam'] is None else 'given'}", f"bw {cfg['bw']}")
        rec.mark(dec >= min(2, cfg["m"]))


@register
class Refine(PTest):
    """The same when refining an arbitrary coresubset (under-sized, full or over-sized);
    non-trivial: at least two choices are decided by more than the tolerance."""

    prop, name = "C04", "refine"
    configs, examples = 8, 14

    def config(self, r, i):
        c = conf(r, i)
        n, m = c["n"], c["m"]
        c["l0"] = r.choice([m, m, max(1, m - 1), max(1, m // 2), 1, min(n, m + 2)])
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, styles=STY)
        n = cfg["n"]
        if cfg["unique"] or draw(st.booleans()):
            case["init"] = draw(st.permutations(list(range(n))))[: cfg["l0"]]
        else:
            case["init"] = draw(
                st.lists(st.integers(0, n - 1), min_size=cfg["l0"], max_size=cfg["l0"])
            )
        return case

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset

        if cfg["l0"] > cfg["m"]:
            case = {**case, "w": {"style": "ones", "n": cfg["n"]}}
        data, x, w, _ = solv.make_data(cfg, case)
        init = Coresubset.build(jnp.asarray(case["init"], dtype=jnp.int32), data)
        out, _ = solv.refine_(stein(cfg), init)
        gram, score, tol = criterion(cfg, x, w)
        tol *= (cfg["m"] + cfg["l0"] + 1) / (cfg["m"] + 1)
        idx = solv.indices_of(out)
        s = greedy.Stepper(gram, w, cfg["m"], case["init"], cfg["unique"])
        dec = greedy.follow(rec, idx, s, score, tol, "Stein refinement")
        rec.tag(f"size {np.sign(cfg['l0'] - cfg['m'])}", "regularised" if cfg["reg"] else "plain")
        rec.mark(dec >= min(2, cfg["m"]))


@register
class Converted(PTest):
    """(replay of the known finding only) a kernel that is not a Stein kernel is converted
    with the score of a kernel density estimate."""

    prop, name = "C04", "converted"
    workers = ()

    def check(self, cfg, case, rec):
        data, x, w, _ = solv.make_data(cfg, case)
        out, _ = stein(cfg).reduce(data)
        cfg = {**cfg, "kde_ls": cfg["k"]["ls"]}
        gram, score, tol = criterion(cfg, x, w)
        s = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
        greedy.follow(rec, solv.indices_of(out), s, score, tol, "Stein thinning")

