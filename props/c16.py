"""C16 weights optimisers solve their documented problems."""

import itertools

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from props.c11 import _tup, blocks, unrolls
from vp.core import TOL, Inconclusive, PTest, draw_points, draw_weights, jnp_array, points, register, weights

STY = ("lattice", "normal", "clusters", "uniform", "skew", "dups")
WST = ("ones", "const", "ints", "floats", "spread", "zeros")


@eqx.filter_jit
def solve_(opt, data, coreset, eps, bs, un, kw):
    return opt.solve(data, coreset, epsilon=eps, block_size=bs, unroll=un, **kw)


@eqx.filter_jit
def coreset_solve_(coreset, opt, eps, kw):
    return coreset.solve_weights(opt, epsilon=eps, **kw)


def system(cfg, x, w, c, eps):
    gram = ref.gram(cfg["k"], c, c) + eps * np.eye(len(c))
    return gram, ref.gram(cfg["k"], c, x) @ ref.norm_w(w)


def simplex_min(q, b):
    """Exact minimum of w'qw/2 - b'w over the simplex by enumeration of supports."""
    m = len(b)
    best = np.inf
    for r in range(1, m + 1):
        for s in itertools.combinations(range(m), r):
            s = list(s)
            a = np.zeros((r + 1, r + 1))
            a[:r, :r] = q[np.ix_(s, s)]
            a[:r, r] = a[r, :r] = 1.0
            sol = np.linalg.lstsq(a, np.r_[b[s], 1.0], rcond=None)[0][:r]
            if sol.min() >= -1e-12:
                sol = np.maximum(sol, 0)
                sol /= sol.sum()
                best = min(best, 0.5 * sol @ q[np.ix_(s, s)] @ sol - b[s] @ sol)
    return best


def conf(r, i, mmax=8):
    n, d, m = [(12, 2, 4), (9, 1, 3), (20, 3, 6), (7, 2, 1), (15, 1, 5), (10, 2, 7)][i % 6]
    return {
        "n": n, "d": d, "m": m,
        "k": ref.random_base(r, ref.STATIONARY + ("Linear", "Polynomial"), d) if i % 3 else
        ref.random_kernel(r, ref.STATIONARY, d),
        "bs": blocks(r, n, m, r.randrange(6)), "un": unrolls(r, r.randrange(8)),
        "sub": r.random() < 0.5,
    }


def draw(d, cfg):
    n, m = cfg["n"], cfg["m"]
    return {
        "x": draw_points(d, n, cfg["d"], STY, (0.3, 1.0)),
        "w": draw_weights(d, n, WST),
        "c": draw_points(d, m, cfg["d"], ("normal", "uniform", "lattice"), (0.3, 1.0)),
        "cw": draw_weights(d, m, ("ones", "floats")),
        "idx": d(st.permutations(list(range(n))))[:m],
        "eps": d(st.sampled_from([1e-10, 1e-3, 0.05, 0.5, 2.0])),
        "arr": d(st.booleans()),
    }


def setup(cfg, case):
    from coreax import Data

    x, w = points(case["x"]), weights(case["w"])
    c = x[case["idx"]] if cfg["sub"] else points(case["c"])
    data = Data(jnp_array(x), jnp_array(w))
    core = Data(jnp_array(c), jnp_array(weights(case["cw"])))
    return x, w, c, data, core


def cond_tol(q):
    ev = np.linalg.eigvalsh(q)
    cond = ev[-1] / max(ev[0], 1e-300)
    if not cond < TOL.pick(3e3, 1e9):
        raise Inconclusive
    return cond


@register
class SBQ(PTest):
    """SBQ weights against the float64 solution of (K_cc + eps I) w = weighted kernel mean
    of the data, for any weights, epsilon, block size; coreset weights are irrelevant;
    non-trivial: the data weights are not all equal."""

    prop, name = "C16", "sbq"
    configs, examples = 6, 18

    def config(self, r, i):
        return conf(r, i)

    def case(self, draw_, cfg):
        return draw(draw_, cfg)

    def check(self, cfg, case, rec):
        from coreax.weights import SBQWeightsOptimiser

        x, w, c, data, core = setup(cfg, case)
        q, b = system(cfg, x, w, c, case["eps"])
        cond = cond_tol(q)
        opt = SBQWeightsOptimiser(ref.build(cfg["k"]))
        got = solve_(opt, data, core, case["eps"], _tup(cfg["bs"]), _tup(cfg["un"]), {})
        want = np.linalg.solve(q, b)
        rec.close(
            got, want, f"SBQ weights (eps={case['eps']})",
            rtol=TOL.pick(3e-6, 1e-13) * cond * 10, atol=TOL.pick(1e-6, 1e-12),
            scale=max(np.abs(want).max(), np.abs(b).max() / np.abs(q).max()),
        )
        if case["arr"]:
            got = solve_(opt, data.data, core.data, case["eps"], None, 1, {})
            want = np.linalg.solve(q, system(cfg, x, np.ones(len(x)), c, case["eps"])[1])
            rec.close(
                got, want, "SBQ weights for plain arrays", rtol=TOL.pick(3e-6, 1e-13) * cond * 10,
                atol=TOL.pick(1e-6, 1e-12), scale=max(np.abs(want).max(), np.abs(b).max() / np.abs(q).max()),
            )
        rec.tag(cfg["k"]["k"], f"eps {case['eps']}")
        rec.mark(np.ptp(w) > 0)


@register
class MMDOpt(PTest):
    """MMD weights: on the probability simplex, and the quadratic objective is within the
    QP solver's tolerance of the exact optimum (enumerating all supports in float64), hence
    not above that of uniform or random simplex weights; non-trivial: the optimum is better
    than uniform weights by more than the tolerance."""

    prop, name = "C16", "mmd"
    configs, examples = 5, 12

    def config(self, r, i):
        return conf(r, i)

    def case(self, draw_, cfg):
        return draw(draw_, cfg)

    def check(self, cfg, case, rec):
        from coreax.weights import MMDWeightsOptimiser

        x, w, c, data, core = setup(cfg, case)
        m = cfg["m"]
        q, b = system(cfg, x, w, c, case["eps"])
        # the QP solver's stopping rule is unreliable on (nearly) singular programs
        if np.diag(q).min() < 1e-2 or np.linalg.cond(q) > 2e3:
            raise Inconclusive
        opt = MMDWeightsOptimiser(ref.build(cfg["k"]))
        kw = {"tol": TOL.pick(1e-4, 1e-7)}
        got = np.asarray(
            solve_(opt, data, core, case["eps"], _tup(cfg["bs"]), _tup(cfg["un"]), kw), dtype=float
        )
        rec.require(got.shape == (m,), "weights of shape %s", got.shape)
        rec.require(np.all(np.isfinite(got)) and got.min() >= 0, "weights %s", got)
        rec.require(abs(got.sum() - 1) < TOL.pick(1e-5, 1e-12), "weights sum to %.9g", got.sum())
        f = lambda v: 0.5 * v @ q @ v - b @ v
        best = simplex_min(q, b)
        scale = max(1.0, np.abs(q).max(), np.abs(b).max())
        tol = TOL.pick(2e-3, 1e-5) * scale
        rec.require(
            f(got) <= best + tol,
            "objective %.7g of the weights %s, but the optimum is %.7g",
            f(got), np.round(got, 4), best,
        )
        rec.tag(cfg["k"]["k"])
        rec.mark(f(np.ones(m) / m) > best + 2 * tol)


@register
class OnCoreset(PTest):
    """Solving the weights of a coresubset or pseudo-coreset keeps its points, indices and
    original data, does not modify the coreset it is called on, and installs exactly the
    weights the optimiser returns for the (weighted) original data; supervised data is
    rejected with ValueError; non-trivial: always."""

    prop, name = "C16", "coreset"
    configs, examples = 4, 10

    def config(self, r, i):
        return dict(conf(r, i), opt=["sbq", "mmd"][i % 2], kind=["sub", "pseudo"][(i // 2) % 2])

    def case(self, draw_, cfg):
        return dict(draw(draw_, cfg), eps=0.05)

    def check(self, cfg, case, rec):
        import coreax
        from coreax import Coresubset, Data, SupervisedData
        from coreax.coreset import PseudoCoreset
        from coreax.weights import MMDWeightsOptimiser, SBQWeightsOptimiser

        x, w, c, data, core = setup(cfg, case)
        q, b = system(cfg, x, w, c, case["eps"])
        if np.diag(q).min() < 1e-2 or np.linalg.cond(q) > 2e3:
            raise Inconclusive
        K = ref.build(cfg["k"])
        opt = SBQWeightsOptimiser(K) if cfg["opt"] == "sbq" else MMDWeightsOptimiser(K)
        cw = weights(case["cw"])
        if cfg["kind"] == "sub":
            import jax.numpy as jnp

            idx = jnp.asarray(case["idx"], dtype=jnp.int32)
            cs = Coresubset(Data(idx, jnp_array(cw)), data)
            q, b = system(cfg, x, w, x[case["idx"]], case["eps"])
            cpts = x[case["idx"]]
        else:
            cs = PseudoCoreset(core, data)
            cpts = c
        out = coreset_solve_(cs, opt, case["eps"], {})
        rec.require(type(out) is type(cs), "result is a %s", type(out))
        rec.require(np.array_equal(np.asarray(out.points.data), cpts.astype(np.asarray(out.points.data).dtype)), "points changed")
        rec.require(
            np.array_equal(np.asarray(out.pre_coreset_data.data), np.asarray(data.data))
            and np.array_equal(np.asarray(out.pre_coreset_data.weights), np.asarray(data.weights)),
            "original data changed",
        )
        if cfg["kind"] == "sub":
            rec.require(np.array_equal(np.asarray(out.unweighted_indices), case["idx"]), "indices changed")
            rec.require(
                np.array_equal(np.asarray(out.indices.weights), np.asarray(out.points.weights)),
                "index weights differ from the point weights",
            )
        rec.require(np.array_equal(np.asarray(cs.points.weights), np.asarray(jnp_array(cw))), "argument modified")
        got = np.asarray(out.points.weights, dtype=float)
        if cfg["opt"] == "sbq":
            cond = cond_tol(q)
            want = np.linalg.solve(q, b)
            rec.close(
                got, want, "solved weights", rtol=TOL.pick(3e-6, 1e-13) * cond * 10,
                atol=TOL.pick(1e-6, 1e-12), scale=max(np.abs(want).max(), np.abs(b).max() / np.abs(q).max()),
            )
        else:
            f = lambda v: 0.5 * v @ q @ v - b @ v
            rec.require(got.min() >= 0 and abs(got.sum() - 1) < TOL.pick(1e-5, 1e-12), "not on the simplex: %s", got)
            tol = 1e-2 * max(1.0, np.abs(q).max(), np.abs(b).max())
            rec.require(f(got) <= simplex_min(q, b) + tol, "solved weights %s are not optimal", got)
        y = jnp_array(np.zeros((len(x), 1)))
        try:
            opt.solve(SupervisedData(data.data, y), SupervisedData(core.data, y[: cfg["m"]]))
            ok = False
        except ValueError:
            ok = True
        rec.require(ok, "supervised data accepted")
        rec.mark()
