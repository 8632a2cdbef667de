"""C17 score matching and conversion to Stein kernels."""

import itertools

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from vp.core import TOL, Inconclusive, PTest, draw_points, jnp_array, points, register

STY = ("lattice", "normal", "dups", "clusters", "uniform", "skew", "offset", "line")


@eqx.filter_jit
def kde_(ls, data, q):
    from coreax.score_matching import KernelDensityMatching

    return KernelDensityMatching(ls).match(data)(q)


@register
class KDE(PTest):
    """Kernel density matching against the float64 gradient of the log of the Gaussian
    kernel density (log-sum-exp), at data points, near and between them, for batches and
    single vectors; non-trivial: the data does not collapse to one point."""

    prop, name = "C17", "kde"
    configs, examples = 6, 25

    def config(self, r, i):
        return {
            "n": r.choice([1, 4, 9, 20]), "d": [1, 2, 3, 5][i % 4], "q": r.choice([1, 3, 6]),
            "ls": ref.rnd(r, 0.4, 3.0), "vec": i % 3 == 2,
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "q": draw_points(draw, cfg["q"], cfg["d"], ("normal", "lattice"), (0.3, 1.0)),
            "at": draw(st.integers(0, cfg["n"] - 1)),
            "rel": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        x, q = points(case["x"]), points(case["q"])
        if case["rel"]:
            q = x[case["at"]] + 0.3 * q
        else:
            q[0] = x[case["at"]]
        q = q.astype(np.float32).astype(float)
        ls = cfg["ls"]
        d2 = ((q[:, None] - x[None]) ** 2).sum(2) / (2 * ls**2)
        if d2.min(1).max() > 20:  # the density underflows far from the data
            raise Inconclusive
        arg = q[0] if cfg["vec"] else q
        got = np.asarray(kde_(ls, jnp_array(x), jnp_array(arg)))
        w = np.exp(-(d2 - d2.min(1, keepdims=True)))
        w /= w.sum(1, keepdims=True)
        want = -(w[:, :, None] * (q[:, None] - x[None])).sum(1) / ls**2
        scale = max(1.0, np.abs(q[:, None] - x[None]).max() / ls**2)
        if cfg["vec"]:
            want = want[0]
        rec.close(got, want, "score of the kernel density", rtol=TOL.pick(2e-4, 1e-10), scale=scale)
        rec.tag("vector" if cfg["vec"] else "batch", f"d={cfg['d']}")
        rec.mark(np.ptp(x) > 0)


@register
class Convert(PTest):
    """Conversion to a Stein kernel: a Stein kernel is kept with its score; a given
    score-matching method overrides or supplies the score; otherwise the score is that of a
    kernel density with the base kernel's length scale (1 if it has none). Judged by the
    values of the converted kernel against the float64 Stein kernel; non-trivial: always."""

    prop, name = "C17", "convert"
    configs, examples = 5, 6

    def config(self, r, i):
        d = r.choice([1, 2, 3])
        k = ref.random_base(r, ref.SMOOTH, d)
        mode = ["plain", "stein", "plain+match", "stein+match", "composite"][i % 5]
        if mode == "composite":
            k2 = ref.random_base(r, ref.SMOOTH, d)
            k = {"k": "add", "a": k, "b": k2}
        return {"d": d, "n": 7, "k": k, "mode": mode, "ls": ref.rnd(r, 0.6, 2.0), "score": ref.random_score(r)}

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], ("normal", "clusters", "uniform"), (0.5, 1.0)),
            "y": draw_points(draw, 3, cfg["d"], ("normal", "lattice"), (0.3,)),
        }

    def check(self, cfg, case, rec):
        from coreax.kernels import SteinKernel
        from coreax.score_matching import KernelDensityMatching, convert_stein_kernel

        x, y = points(case["x"]), points(case["y"])
        mode = cfg["mode"]
        K = ref.build(cfg["k"])
        match = KernelDensityMatching(cfg["ls"]) if "match" in mode else None
        if mode.startswith("stein"):
            K = SteinKernel(K, ref.build_score(cfg["score"]))
        out = convert_stein_kernel(jnp_array(x), K, match)
        rec.require(isinstance(out, SteinKernel), "converted kernel is a %s", type(out))
        if mode == "stein":
            sy = ref.score_ref(cfg["score"], y)
            sx = ref.score_ref(cfg["score"], x)
        else:
            ls = cfg["ls"] if match is not None else cfg["k"].get("ls", 1.0)
            sx, sy = ref.kde_score(x, ls, x)[0], ref.kde_score(x, ls, y)[0]
        base = K.base_kernel if mode.startswith("stein") else K
        rec.require(out.base_kernel == base, "the base kernel changed: %s", out.base_kernel)
        gx = np.asarray(out.score_function(jnp_array(x)))
        rec.close(gx, sx, f"score of the converted kernel ({mode})", rtol=TOL.pick(5e-4, 1e-9), scale=max(1, np.abs(sx).max()))
        if mode != "composite":
            got = out.compute(jnp_array(x), jnp_array(y))
            want = ref.stein_gram(cfg["k"], x, y, sx, sy)
            rec.close(
                got, want, f"converted kernel ({mode})", rtol=TOL.pick(5e-4, 1e-9),
                scale=ref.stein_mag(cfg["k"], x, y, sx, sy),
            )
        rec.tag(mode)
        rec.mark()


# --------------------------------------------------------------------- sliced matching


def linear_score(fn, d):
    """(W, b) of an affine score function s(x) = W x + b."""
    pts = np.vstack([np.zeros((1, d)), np.eye(d)])
    out = np.asarray(fn(jnp_array(pts)), dtype=float)
    return (out[1:] - out[0]).T, out[0]


def loss_grad(W, b, x, v, analytic):
    """Gradient in (W, b) of the mean over projections of the sliced objective at x."""
    s = W @ x + b
    gW, gb = np.zeros_like(W), np.zeros_like(b)
    for u in v:
        gW += np.outer(u, u)
        e = s if analytic else (u @ s) * u
        gW += np.outer(e, x)
        gb += e
    return gW / len(v), gb / len(v)


@register
class Sliced(PTest):
    """Sliced score matching with an affine network and plain gradient descent, step by
    step: the parameters after k epochs minus those after k - 1 (same key) must equal minus
    the learning rate times the mean gradient of the documented objective (general or
    analytic, for the given projections) over some mini-batch of the configured size
    (enumerated), summed over the noise levels when noise conditioning with small noise is
    on; the estimate is deterministic in its key. Non-trivial: the gradient is not small."""

    prop, name = "C17", "sliced"
    configs, examples = 4, 3

    def config(self, r, i):
        return {
            "d": r.choice([1, 2, 3]), "n": [1, 2, 3][i % 3], "B": r.choice([1, 2, 3]), "M": r.choice([1, 2, 4]),
            "analytic": i % 2 == 1, "noise": r.choice([0, 0, 1, 3]), "lr": 0.05, "epochs": r.choice([1, 2]),
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], ("normal", "lattice", "uniform"), (1.0,)),
            "v": draw(st.integers(0, 10**6)),
            "key": draw(st.integers(0, 10**6)),
        }

    def check(self, cfg, case, rec):
        import jax
        import optax
        from coreax.score_matching import SlicedScoreMatching

        d, n = cfg["d"], cfg["n"]
        x = points(case["x"])
        v = np.random.default_rng(case["v"]).normal(size=(n, cfg["M"], d)).astype(np.float32).astype(float)
        sigma, gamma = 0.01, 0.5
        c = sum((sigma * gamma**i) ** 2 for i in range(cfg["noise"])) if cfg["noise"] else 1.0
        lr = cfg["lr"] / c  # steps of moderate size

        def gen(key, shape, dtype):
            rec.require(tuple(shape) == v.shape, "projections of shape %s requested", shape)
            return jnp_array(v)

        def fit(epochs):
            m = SlicedScoreMatching(
                jax.random.key(case["key"]), gen, noise_conditioning=cfg["noise"] > 0,
                use_analytic=cfg["analytic"], num_random_vectors=cfg["M"], num_epochs=epochs,
                batch_size=cfg["B"], hidden_dims=(), optimiser=optax.sgd(lr),
                num_noise_models=max(1, cfg["noise"]), sigma=sigma, gamma=gamma,
            )
            return m.match(jnp_array(x))

        # SGD with linear network in the flax default precision (float32)
        E = cfg["epochs"]
        before, after = fit(E - 1), fit(E)
        W0, b0 = linear_score(before, d)
        W1, b1 = linear_score(after, d)
        one = np.asarray(after(jnp_array(x[0])))
        rec.require(one.shape == (d,), "score of a vector has shape %s", one.shape)
        rec.close(one, W1 @ x[0] + b1, "score of a vector", rtol=1e-4, atol=1e-4)
        if E == 1:
            again = np.asarray(fit(E)(jnp_array(x)))
            rec.require(np.array_equal(again, np.asarray(after(jnp_array(x)))), "not deterministic in the key")
        step = np.c_[(W0 - W1), (b0 - b1)[:, None]] / cfg["lr"]
        g = [np.c_[gw, gb[:, None]] for gw, gb in (loss_grad(W0, b0, x[i], v[i], cfg["analytic"]) for i in range(n))]
        best = min(
            np.abs(np.mean([g[i] for i in idx], 0) - step).max()
            for idx in itertools.combinations_with_replacement(range(n), cfg["B"])
        )
        scale = max(1.0, max(np.abs(z).max() for z in g))
        if cfg["noise"]:
            tol = 0.1 * scale
        else:
            tol = 1e-3 * scale
        rec.require(
            best <= tol,
            "the training step %s is not the gradient of the sliced objective on any mini-batch "
            "(off by %.3g, tolerance %.3g); per-point gradients %s",
            step.tolist(), best, tol, [z.round(4).tolist() for z in g],
        )
        rec.tag("analytic" if cfg["analytic"] else "general", f"noise {cfg['noise']}")
        rec.mark(best <= tol < scale)
