"""C18 kernel approximations and regularised least squares."""

import itertools

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from vp.core import TOL, Inconclusive, PTest, draw_points, draw_weights, jnp_array, points, register, weights

METHODS = ("MonteCarlo", "ANNchor", "Nystrom")


def approx(name, k, key, nk, nt):
    import coreax.approximation as ca

    cls = getattr(ca, name + "ApproximateKernel")
    return cls(ref.build(k), random_key=key, num_kernel_points=nk, num_train_points=nt)


@eqx.filter_jit
def row_mean(kernel, x):
    return kernel.gramian_row_mean(x)


@eqx.filter_jit
def methods(kernel, x, y):
    return (
        kernel.compute(x, y), kernel.grad_x(x, y), kernel.grad_y(x, y),
        kernel.divergence_x_grad_y(x, y), kernel.compute_mean(x, y),
    )


def lstsq_fit(gram, mean, feat, train):
    a = gram[np.ix_(train, feat)]
    sol = np.linalg.lstsq(a, mean[train], rcond=TOL.pick(1.2e-7, 2.2e-16) * max(a.shape))[0]
    return gram[:, feat] @ sol


@register
class Fit(PTest):
    """The approximate row mean equals a least-squares fit of the exact (unweighted) row
    mean by kernel features of some subset of points of the configured size, trained on
    some subset of the configured size - existence is decided by enumerating all subsets
    in float64 (for ANNchor the features are those of its max-min rule); non-trivial: the
    fit differs from the exact mean."""

    prop, name = "C18", "fit"
    configs, examples = 5, 12

    def config(self, r, i):
        n = r.choice([4, 5, 6])
        nk = r.randint(2, n)
        m = METHODS[i % 3]
        return {
            "m": m, "n": n, "d": r.choice([1, 2]), "nk": nk, "nt": r.randint(1, n),
            "k": {"k": "SquaredExponential", "ls": ref.rnd(r, 0.3, 1.0), "os": ref.rnd(r, 0.5, 2.0)}
            if r.random() < 0.6 else ref.random_base(r, ("Exponential", "Laplacian", "Matern"), 2),
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], ("normal", "uniform", "skew", "lattice"), (1.0, 3.0)),
            "w": draw_weights(draw, cfg["n"], ("ones", "floats")),
            "key": draw(st.integers(0, 10**6)),
            "asdata": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        x = points(case["x"])
        n, nk, nt = cfg["n"], cfg["nk"], cfg["nt"]
        gram = ref.gram(cfg["k"], x, x)
        mean = gram.mean(1)
        if np.linalg.cond(gram) > TOL.pick(200, 1e6):
            raise Inconclusive
        k = approx(cfg["m"], cfg["k"], jax.random.key(case["key"]), nk, nt)
        arg = Data(jnp_array(x), jnp_array(weights(case["w"]))) if case["asdata"] else jnp_array(x)
        got = np.asarray(row_mean(k, arg), dtype=float)
        rec.require(got.shape == (n,), "row mean of shape %s", got.shape)
        if cfg["m"] == "ANNchor":
            sel = [0]
            for _ in range(1, nk):
                far = gram[:, sel].max(1)
                order = np.sort(far)
                if len(order) > 1 and order[1] - order[0] < 1e-5:
                    raise Inconclusive
                sel.append(int(far.argmin()))
            feats = [sel]
        else:
            # Monte Carlo uses one feature fewer than the number of kernel points
            size = nk - 1 if cfg["m"] == "MonteCarlo" else nk
            feats = [list(s) for s in itertools.combinations(range(n), size)]
        best, fits = np.inf, 0
        for f in feats:
            for t in itertools.combinations(range(n), nt):
                a = gram[np.ix_(list(t), f)]
                sv = np.linalg.svd(a, compute_uv=False)
                if sv[-1] < TOL.pick(3e-3, 1e-7) * sv[0]:
                    # numerically rank deficient: the minimum-norm solution depends on the cut-off
                    if cfg["m"] == "ANNchor" and len(set(f)) == len(f) or cfg["m"] != "ANNchor":
                        raise Inconclusive
                err = np.abs(lstsq_fit(gram, mean, f, list(t)) - got).max()
                best = min(best, err)
        tol = TOL.pick(2e-3, 1e-7) * max(1.0, gram.max())
        rec.require(
            best <= tol,
            "%s row mean %s is not a fit with %d kernel and %d training points of the mean %s (best %.3g)",
            cfg["m"], got, nk, nt, mean, best,
        )
        rec.tag(cfg["m"], "data" if case["asdata"] else "array")
        rec.mark(np.abs(got - mean).max() > 10 * tol)


@register
class Exact(PTest):
    """The approximation is exact when the kernel features span the row mean: finite-rank
    kernels with enough points, and any kernel when all points are used (Nystrom); and its
    other methods equal those of the base kernel; non-trivial: always."""

    prop, name = "C18", "exact"
    configs, examples = 5, 10

    def config(self, r, i):
        d = r.choice([1, 2])
        m = METHODS[i % 3]
        n = r.choice([10, 16, 25])
        full = m == "Nystrom" and i % 2 == 1
        if full:
            n = 6
            k = ref.random_base(r, ("Exponential", "Laplacian"), d)
            nk = nt = n
        else:
            k = {"k": "Linear", "os": ref.rnd(r, 0.5, 2), "c": r.choice([0.0, ref.rnd(r, 0.5, 2.0)])}
            rank = d + 1
            nk = rank + 3 + r.randrange(3)
            nt = nk if m == "Nystrom" else rank + 3 + r.randrange(n - rank - 3)
        return {"m": m, "n": n, "d": d, "nk": nk, "nt": nt, "k": k, "full": full}

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], ("normal", "uniform"), (1.0,)),
            "y": draw_points(draw, 4, cfg["d"], ("normal", "lattice"), (1.0,)),
            "key": draw(st.integers(0, 10**6)),
        }

    def check(self, cfg, case, rec):
        import jax

        x, y = points(case["x"]), points(case["y"])
        gram = ref.gram(cfg["k"], x, x)
        k = approx(cfg["m"], cfg["k"], jax.random.key(case["key"]), cfg["nk"], cfg["nt"])
        if cfg["full"] and np.linalg.cond(gram) > TOL.pick(1e3, 1e8):
            raise Inconclusive
        if cfg["m"] == "ANNchor":  # the anchors must span the feature space
            sel = [0]
            for _ in range(1, cfg["nk"]):
                sel.append(int(gram[:, sel].max(1).argmin()))
            sv = np.linalg.svd(gram[:, sel], compute_uv=False)
            rank = np.linalg.matrix_rank(gram, tol=1e-6 * gram.max())
            if len(sv) < rank or sv[rank - 1] < 3e-2 * sv[0]:
                raise Inconclusive
        got = row_mean(k, jnp_array(x))
        rec.close(
            got, gram.mean(1), f"{cfg['m']} row mean of a finite-rank kernel",
            rtol=TOL.pick(5e-3, 1e-8), scale=np.abs(gram).max(),
        )
        a = methods(k, jnp_array(x), jnp_array(y))
        b = methods(ref.build(cfg["k"]), jnp_array(x), jnp_array(y))
        for u, v, what in zip(a, b, ("compute", "grad_x", "grad_y", "divergence", "compute_mean")):
            rec.close(u, v, f"{what} of the approximate kernel", rtol=TOL.pick(1e-5, 1e-12))
        rec.tag(cfg["m"])
        rec.mark()


@register
class Counts(PTest):
    """Point counts larger than the data, or not positive, are rejected with ValueError and
    all others accepted; non-trivial: always."""

    prop, name = "C18", "counts"
    configs, examples = 1, 12

    def config(self, r, i):
        return {"m": METHODS[i % 3], "k": {"k": "SquaredExponential", "ls": 1.0, "os": 1.0}}

    def case(self, draw, cfg):
        n = draw(st.sampled_from([3, 6]))
        return {"n": n, "nk": draw(st.integers(-1, n + 2)), "nt": draw(st.integers(-1, n + 2))}

    def check(self, cfg, case, rec):
        import jax

        n, nk, nt = case["n"], case["nk"], case["nt"]
        if cfg["m"] == "MonteCarlo" and nk in (1, n + 1):
            raise Inconclusive  # one kernel point is left out: the bound is off by one
        if cfg["m"] == "ANNchor" and nk > n:
            raise Inconclusive  # repeats anchors
        ok = 1 <= nk <= n and 1 <= nt <= n
        x = jnp_array(np.linspace(-1, 1, n)[:, None])
        rec.mark()
        try:
            k = approx(cfg["m"], cfg["k"], jax.random.key(0), nk, nt)
            out = jax.eval_shape(k.gramian_row_mean, x)
        except ValueError as e:
            rec.require(not ok, "%s with %d kernel and %d training points of %d rejected: %s", cfg["m"], nk, nt, n, e)
            return
        rec.require(ok, "%s with %d kernel and %d training points of %d accepted", cfg["m"], nk, nt, n)
        rec.require(out.shape == (n,), "shape %s", out.shape)


# ------------------------------------------------------------------------ least squares


def lsq(c, seed):
    import jax
    from coreax.least_squares import MinimalEuclideanNormSolver, RandomisedEigendecompositionSolver

    if c["s"] == "min":
        return MinimalEuclideanNormSolver(rcond=c["rcond"])
    return RandomisedEigendecompositionSolver(
        jax.random.key(seed), oversampling_parameter=c["over"], power_iterations=c["pow"], rcond=c["rcond"]
    )


@eqx.filter_jit
def solve_(s, a, lam, b, i):
    return s.solve(a, lam, b, i)


@eqx.filter_jit
def stack_(s, a, lam, b, i):
    return s.solve_stack(a, lam, b, i)


@eqx.filter_jit
def eig_(s, a):
    return s.randomised_eigendecomposition(a)


def psd(spec, n, rank, lo=0.3):
    rng = np.random.default_rng(spec)
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    ev = np.zeros(n)
    ev[:rank] = rng.uniform(lo, 3.0, size=rank)
    a = (q * ev) @ q.T
    a = (a + a.T) / 2
    return (a if TOL.x64 else a.astype(np.float32).astype(float)), rng


@register
class LeastSquares(PTest):
    """Both solvers against the float64 solution of (A + |lambda| I) X = B for symmetric
    positive semi-definite A: full rank, rank deficient (pseudo-inverse), padded with zero
    rows and a masked identity, negative lambda, stacks; non-trivial: lambda is non-zero
    or A is rank deficient."""

    prop, name = "C18", "lstsq"
    configs, examples = 6, 15

    def config(self, r, i):
        n = r.choice([3, 5, 8])
        return {
            "s": ["min", "rand"][i % 2], "n": n, "p": r.choice([1, 2, 4]),
            "rcond": r.choice([None, None, 1e-3, -1]), "over": n + r.choice([0, 3, 20]), "pow": r.choice([0, 1, 2]),
            "pad": r.choice([0, 0, 2]), "low": False,
        } | ({"over": n - 1, "low": True, "rcond": 1e-3} if i % 4 == 3 else {})

    def case(self, draw, cfg):
        n = cfg["n"]
        return {
            "seed": draw(st.integers(0, 10**6)),
            "rank": draw(st.integers(1, max(1, n - 3) if cfg["low"] else n)),
            "lam": 0.0 if cfg["low"] else draw(st.sampled_from([0.0, 0.1, -0.5, 2.0, -1.0, 1e-3])),
            "l": 3,
        }

    def check(self, cfg, case, rec):
        n, p, pad = cfg["n"], cfg["p"], cfg["pad"]
        lam = case["lam"]
        a1, rng = psd(case["seed"], n, case["rank"])
        # rank deficient without regularisation needs a cut-off that ignores rounding
        rank_def = case["rank"] < n and abs(lam) < 1e-2
        if rank_def and (cfg["rcond"] in (None, -1) or lam != 0):
            raise Inconclusive
        size = n + pad
        a = np.zeros((size, size))
        a[:n, :n] = a1
        ident = np.zeros((size, size))
        ident[:n, :n] = np.eye(n)
        if pad and cfg["rcond"] in (None, -1):
            raise Inconclusive
        if cfg["s"] == "rand" and pad and cfg["over"] < size and not cfg["low"]:
            pass  # the range is within the sampled one: rank <= n <= over
        b = rng.normal(size=(size, p)).astype(np.float32).astype(float)
        m = a + abs(lam) * ident
        cut = 1e-3 if cfg["rcond"] not in (None, -1) else 1e-7
        want = np.linalg.pinv(m, rcond=cut, hermitian=True) @ b
        s = lsq(cfg, case["seed"])
        got = solve_(s, jnp_array(a), lam, jnp_array(b), jnp_array(ident))
        # a rank deficient matrix rounded to single precision is so only up to 1e-7
        tol = TOL.pick(3e-3, 1e-6 if rank_def else 1e-9)
        rec.close(got, want, f"least squares ({cfg['s']}, lambda={lam})", rtol=tol, scale=max(1, np.abs(want).max()))
        # stack
        arrs, tg, wants = [], [], []
        for j in range(case["l"]):
            aj = np.zeros((size, size))
            aj[:n, :n], rj = psd(case["seed"] + j + 1, n, case["rank"])
            bj = rj.normal(size=(size, p)).astype(np.float32).astype(float)
            arrs.append(aj), tg.append(bj)
            wants.append(np.linalg.pinv(aj + abs(lam) * ident, rcond=cut, hermitian=True) @ bj)
        got = stack_(s, jnp_array(np.array(arrs)), lam, jnp_array(np.array(tg)), jnp_array(ident))
        rec.close(got, np.array(wants), "stack of least squares", rtol=tol, scale=max(1, np.abs(wants).max()))
        rec.tag(cfg["s"], "padded" if pad else "plain", "rank deficient" if rank_def else "full rank")
        rec.mark(lam != 0 or rank_def)


@register
class Eigen(PTest):
    """Randomised eigendecomposition: orthonormal vectors, U diag(l) U' equal to the matrix
    when its rank is within the oversampling parameter, otherwise eigenvalues that interlace
    those of the matrix (a compression) and, with power iterations on a matrix with a
    spectral gap, dominant eigenvalues recovered; non-trivial: rank below the size."""

    prop, name = "C18", "eigen"
    configs, examples = 4, 15

    def config(self, r, i):
        n = r.choice([4, 7, 10])
        return {"s": "rand", "n": n, "over": r.randint(2, n + 3), "pow": r.choice([0, 1, 3]), "rcond": None}

    def case(self, draw, cfg):
        return {
            "seed": draw(st.integers(0, 10**6)),
            "rank": draw(st.integers(1, cfg["n"])),
            "neg": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        n, over, rank = cfg["n"], cfg["over"], case["rank"]
        rng = np.random.default_rng(case["seed"])
        q, _ = np.linalg.qr(rng.normal(size=(n, n)))
        ev = np.zeros(n)
        ev[:rank] = rng.uniform(0.3, 3.0, size=rank)
        if case["neg"]:
            ev[:rank] *= rng.choice([-1, 1], size=rank)
        a = (q * ev) @ q.T
        a = (a + a.T) / 2
        a = a if TOL.x64 else a.astype(np.float32).astype(float)
        ev = np.sort(np.linalg.eigvalsh(a))
        vals, vecs = map(lambda z: np.asarray(z, float), eig_(lsq(cfg, case["seed"]), jnp_array(a)))
        r = min(n, over)
        rec.require(vals.shape == (r,) and vecs.shape == (n, r), "shapes %s, %s", vals.shape, vecs.shape)
        tol = TOL.pick(1e-3, 1e-9)
        rec.close(vecs.T @ vecs, np.eye(r), "orthonormality of the eigenvectors", rtol=0, atol=tol)
        rec.close(
            np.diag(vecs.T @ a @ vecs), vals, "Rayleigh quotients of the eigenvectors", rtol=0, atol=3 * tol
        )
        s = np.sort(vals)
        rec.require(
            np.all(s >= ev[:r] - tol * 3) and np.all(s <= ev[n - r :] + tol * 3),
            "eigenvalues %s do not interlace %s", s, ev,
        )
        # a square Gaussian sketch may be ill-conditioned: leave a margin
        if rank <= over - 2 or over >= n:
            rec.close((vecs * vals) @ vecs.T, a, "reconstruction", rtol=0, atol=TOL.pick(5e-3, 1e-7))
            rec.tag("within range")
        rec.mark(rank < n)
