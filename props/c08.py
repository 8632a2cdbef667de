"""C08 kernel thinning and Compress++."""

import functools
import itertools
import json
import math

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import c03, greedy, ref, solv
from vp.core import TOL, Inconclusive, PTest, draw_points, draw_weights, jnp_array, points, register, weights

STY = ("lattice", "normal", "dups", "clusters", "uniform", "skew", "line")


def thinning(c, m, key=None):
    import jax
    import coreax.solvers as cs

    return cs.KernelThinning(
        m,
        kernel=ref.build(c["k"]),
        random_key=jax.random.key(0) if key is None else key,
        delta=c["delta"],
        sqrt_kernel=ref.build(c["ks"]),
    )


def kconf(r, d):
    return {
        "d": d,
        "k": ref.random_base(r, ref.STATIONARY, d),
        "ks": ref.random_base(r, ref.STATIONARY, d),
        "delta": ref.rnd(r, 0.01, 0.7),
    }


# ------------------------------------------------------------------------ halving law


@functools.lru_cache(maxsize=None)
def halver(cfg_json):
    import jax

    c = json.loads(cfg_json)

    @eqx.filter_jit
    def run(keys, data):
        def one(key):
            a, b = thinning(c, 1, key).kt_half(data)
            return a.unweighted_indices, b.unweighted_indices

        return jax.vmap(one)(keys)

    return run


def half_law(gram, delta):
    """{first half: probability} of kernel halving, pairs in order."""
    n = len(gram) // 2
    out = {}

    def rec(i, first, sigma2, p):
        if p == 0:
            return
        if i == n:
            out[tuple(first)] = out.get(tuple(first), 0.0) + p
            return
        x1, x2 = 2 * i, 2 * i + 1
        b2 = max(gram[x1, x1] + gram[x2, x2] - 2 * gram[x1, x2], 0.0)
        if b2 < 1e-12:
            b2 = 0.0
        a = max(math.sqrt(b2 * sigma2 * 2 * math.log(2 / delta)), b2)
        if a <= 0:
            q, s2 = 0.5, sigma2
        else:
            s2 = sigma2 + max(b2 * (1 + (b2 - 2 * a) * sigma2 / a**2), 0.0)
            diff = gram[:, x1] - gram[:, x2]
            alpha = diff[: 2 * i].sum() - 2 * diff[list(first)].sum()
            q = min(1.0, max(0.0, 0.5 * (1 - alpha / a)))
        rec(i + 1, first + [x2], s2, p * q)
        rec(i + 1, first + [x1], s2, p * (1 - q))

    rec(0, [], 0.0, 1.0)
    return out


@register
class Half(PTest):
    """Kernel halving of small datasets over thousands of random keys: each half holds one
    point of every consecutive pair, the halves are disjoint, and the joint frequencies of
    the first half follow the exactly enumerated swap law (adaptive threshold, sub-Gaussian
    parameter, square-root kernel); non-trivial: the law is not uniform."""

    prop, name = "C08", "half"
    configs, examples = 4, 10
    N = 6000

    def config(self, r, i):
        c = kconf(r, r.choice([1, 2]))
        c["n"] = [8, 6, 4, 12, 10, 2][i % 6]
        # different scales of the square-root kernel
        if "os" in c["ks"]:
            c["ks"]["os"] = r.choice([0.25, 1.0, 3.0])
        return c

    def case(self, draw, cfg):
        n = cfg["n"]
        return {
            "x": draw_points(draw, n, cfg["d"], STY),
            "w": draw_weights(draw, n, ("ones", "ints", "floats")),
            "key": draw(st.integers(0, 10**6)),
        }

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        x, w = points(case["x"]), weights(case["w"])
        data = Data(jnp_array(x), jnp_array(w))
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        a, b = map(np.asarray, halver(json.dumps(cfg, sort_keys=True))(keys, data))
        h = cfg["n"] // 2
        rec.require(
            a.shape == (self.N, h) and b.shape == (self.N, h), "halves of shapes %s, %s", a.shape, b.shape
        )
        pair = np.arange(h)
        rec.require(
            np.all(a // 2 == pair) and np.all(b // 2 == pair) and np.all(a + b == 4 * pair + 1),
            "halves do not hold one point of each consecutive pair: %s / %s",
            a[(a // 2 != pair).any(1) | (a + b != 4 * pair + 1).any(1)][:1],
            b[(a // 2 != pair).any(1) | (a + b != 4 * pair + 1).any(1)][:1],
        )
        gram = ref.gram(cfg["ks"], x, x)
        for i in range(h):
            b2 = gram[2 * i, 2 * i] + gram[2 * i + 1, 2 * i + 1] - 2 * gram[2 * i, 2 * i + 1]
            if 1e-12 < b2 < 1e-3:  # cancellation in the kernel distance
                rec.tag("cancellation")
                return
        law = half_law(gram, cfg["delta"])
        greedy.law_test(rec, greedy.tally(a), law, "kernel halving", TOL.pick(2e-3, 1e-6))
        probs = np.array(list(law.values()))
        rec.tag(f"{h} pairs")
        rec.mark(np.ptp(probs) > 1e-3 or len(law) < 2**h)


# ------------------------------------------------------------------------- candidates


SIZES = [(16, 2), (17, 4), (12, 3), (11, 5), (25, 6), (9, 9), (20, 11), (15, 4), (7, 1), (40, 10), (140, 64)]


@eqx.filter_jit
def _parts(solver, data, m):
    n = solver.coreset_size * 2**m
    return [c.unweighted_indices for c in solver.kt_half_recursive(data[:n], m, data)]


@eqx.filter_jit
def _points(solver, data, m):
    n = solver.coreset_size * 2**m
    parts = solver.kt_half_recursive(data[:n], m, data)
    return [(c.unweighted_indices, c.points, c.pre_coreset_data) for c in parts]


@eqx.filter_jit
def _base(solver, data):
    return solver.get_baseline_coreset(data, solver.coreset_size).unweighted_indices


@register
class Recursive(PTest):
    """Recursive halving into candidates: 2^m candidates of equal size, disjoint, covering
    the retained rows, holding original row indices; at every level the two sub-candidates
    split consecutive pairs of their parent; their points and underlying dataset are those
    of the original data. Non-trivial: at least two levels."""

    prop, name = "C08", "recursive"
    configs, examples = 3, 8

    def config(self, r, i):
        c = kconf(r, r.choice([1, 2, 3]))
        c["n"], c["m"], c["lev"] = [
            (16, 2, 3), (13, 3, 2), (8, 4, 1), (9, 2, 2), (24, 3, 3), (5, 5, 0), (10, 1, 3), (12, 6, 1),
        ][i % 8]
        c["s"] = "KernelThinning"
        return c

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, zeros=False, styles=STY)

    def check(self, cfg, case, rec):
        import jax

        data, x, w, _ = solv.make_data(cfg, case)
        s = thinning(cfg, cfg["m"], jax.random.key(case["key"]))
        lev, m = cfg["lev"], cfg["m"]
        out = _points(s, data, lev)
        parts = [np.asarray(i) for i, _, _ in out]
        total = m * 2**lev
        rec.require(len(parts) == 2**lev, "%d candidates for %d halvings", len(parts), lev)
        rec.require(all(len(p) == m for p in parts), "candidates of sizes %s", [len(p) for p in parts])
        union = np.sort(np.concatenate(parts))
        rec.require(
            np.array_equal(union, np.arange(total)),
            "the candidates do not partition the retained rows: %s",
            [p.tolist() for p in parts],
        )
        # Undo the halvings bottom up: the two children of a parent hold, position by
        # position, the two points of its consecutive pairs.
        level = [[(int(v),) for v in p] for p in parts]
        while len(level) > 1:
            level = [
                [tuple(sorted(a[i] + b[i])) for i in range(len(a))]
                for a, b in zip(level[::2], level[1::2])
            ]
        want = [tuple(range(i * 2**lev, (i + 1) * 2**lev)) for i in range(m)]
        rec.require(
            sorted(level[0]) == want,
            "position-wise union of the candidates %s is not the consecutive blocks",
            level[0],
        )
        for (_, p, q), idx in zip(out, parts):
            rec.require(
                np.array_equal(np.asarray(p.data), np.asarray(data.data)[idx]),
                "candidate points differ from the original rows at its indices",
            )
            rec.require(
                np.array_equal(np.asarray(q.data), np.asarray(data.data)),
                "a candidate does not refer to the original dataset",
            )
        rec.tag(f"{lev} halvings")
        rec.mark(lev >= 2)


@register
class Choose(PTest):
    """Choosing among arbitrary candidate coresubsets returns the indices of one whose MMD
    to the weighted dataset is least (float64 reference); non-trivial: the best is better
    than the runner-up by more than the tolerance and is not the first candidate."""

    prop, name = "C08", "choose"
    configs, examples = 3, 12

    def config(self, r, i):
        c = kconf(r, r.choice([1, 2]))
        c["n"], c["m"], c["c"] = [(12, 3, 4), (9, 4, 5), (16, 2, 9), (20, 6, 3)][i % 4]
        c["s"] = "KernelThinning"
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, zeros=False, styles=STY)
        case["cand"] = draw(st.integers(0, 10**6))
        return case

    def check(self, cfg, case, rec):
        import jax

        data, x, w, _ = solv.make_data(cfg, case)
        rng = np.random.default_rng(case["cand"])
        cand = [rng.permutation(cfg["n"])[: cfg["m"]] for _ in range(cfg["c"])]
        s = thinning(cfg, cfg["m"], jax.random.key(case["key"]))
        got = np.asarray(_choose(s, data, jnp_int(cand))).reshape(-1)
        vals = np.array([cand_mmd2(cfg["k"], x, w, c) for c in cand])
        hit = [k for k, c in enumerate(cand) if np.array_equal(c, got)]
        rec.require(hit, "the chosen indices %s are not those of a candidate", got)
        tol = TOL.pick(3e-5, 1e-12) * ref.gram(cfg["k"], x, x).max()
        v = min(vals[k] for k in hit)
        rec.require(
            v <= vals.min() + tol,
            "chose the candidate %s with squared MMD %.9g, but candidate %s has %.9g",
            got,
            v,
            cand[int(vals.argmin())],
            vals.min(),
        )
        rec.mark(np.sort(vals)[1] > vals.min() + tol and vals.argmin() > 0)


def jnp_int(a):
    import jax.numpy as jnp

    return jnp.asarray(np.asarray(a), dtype=jnp.int32)


@eqx.filter_jit
def _choose(solver, data, cand):
    from coreax import Coresubset, Data

    return solver.kt_choose([Coresubset(Data(c), data) for c in cand], data)


def cand_mmd2(k, x, w, idx):
    return ref.mmd2(k, x, w, x[idx], np.ones(len(idx)))


@register
class Reduce(PTest):
    """Kernel thinning end to end: the result is one herding refinement pass (slot by slot
    optimal, float64 criterion) over a candidate of least MMD among the halving candidates
    and the baseline of the same key, and its MMD to the data does not exceed that of any
    candidate; distinct valid rows. Non-trivial: the refinement changed some slot."""

    prop, name = "C08", "reduce"
    configs, examples = 5, 9

    def config(self, r, i):
        n, m = SIZES[i % len(SIZES)]
        c = kconf(r, r.choice([1, 2, 3]))
        c.update(n=n, m=m, s="KernelThinning")
        return c

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, zeros=False, styles=STY)

    def check(self, cfg, case, rec):
        import jax

        data, x, w, _ = solv.make_data(cfg, case)
        s = thinning(cfg, cfg["m"], jax.random.key(case["key"]))
        out, _ = solv.reduce_(s, data)
        idx = solv.valid(rec, cfg, out, data, x, None, "kernel thinning")
        n, m = cfg["n"], cfg["m"]
        rec.require(len(idx) == m, "%d points instead of %d", len(idx), m)
        rec.require(len(set(idx.tolist())) == m, "repeated indices %s", idx)
        lev = 0
        while m * 2 ** (lev + 1) <= n:
            lev += 1
        cand = [np.asarray(p) for p in _parts(s, data, lev)] + [np.asarray(_base(s, data))]
        gram = ref.gram(cfg["k"], x, x)
        vals = np.array([cand_mmd2(cfg["k"], x, w, c) for c in cand])
        tol2 = TOL.pick(3e-5, 1e-12) * gram.max()
        got = cand_mmd2(cfg["k"], x, w, idx)
        rec.require(
            got <= vals.min() + 2 * tol2,
            "squared MMD %.9g of the result exceeds that of a candidate, %.9g",
            got,
            vals.min(),
        )
        score = c03.herding_score(gram @ ref.norm_w(w))
        tol = 2 * c03.tol_of(cfg["k"], gram)
        errors = []
        changed = False
        for k in np.flatnonzero(vals <= vals.min() + tol2):
            init = cand[k].tolist()
            from vp.core import Recorder, Violation

            sub = Recorder()
            try:
                step = greedy.Stepper(gram, w, m, init, True)
                greedy.follow(sub, idx, step, score, tol, "refinement of the best candidate")
                changed = init != idx.tolist()
                errors = None
                break
            except Violation as e:
                errors.append(str(e))
        rec.require(
            errors is None, "the result is not a refinement of the best candidate: %s", errors and errors[0]
        )
        rec.tag(f"{lev} halvings", "baseline best" if vals.argmin() == len(cand) - 1 else "halving best")
        rec.mark(changed)


# ------------------------------------------------------------------------- Compress++


def compress(c, m, g, key):
    import coreax.solvers as cs

    return cs.CompressPlusPlus(
        m, g=g, kernel=ref.build(c["k"]), random_key=key, delta=c["delta"], sqrt_kernel=ref.build(c["ks"])
    )


@functools.lru_cache(maxsize=None)
def compressor(cfg_json):
    import jax

    c = json.loads(cfg_json)

    @eqx.filter_jit
    def run(keys, data):
        return jax.vmap(
            lambda k: compress(c, c["m"], c["g"], k).reduce(data)[0].unweighted_indices
        )(keys)

    return run


@register
class Compress(PTest):
    """Compress++ over many keys: distinct valid rows; the frequency with which each point
    is selected does not depend on the order of the rows (two-sample chi-square, as the
    data is clipped and ordered at random); and the mean squared MMD is below that of
    uniform random samples of the same size (exact expectation). Non-trivial: always."""

    prop, name = "C08", "compress"
    configs, examples = 1, 4
    thorough_configs = 5
    N = 1500

    def config(self, r, i):
        n, m, g = [(17, 4, 1), (20, 3, 1), (16, 4, 0), (18, 2, 0), (21, 6, 2), (6, 2, 0), (19, 8, 1), (16, 3, 2)][i % 8]
        c = {
            "n": n, "m": m, "g": g, "d": r.choice([1, 2]), "s": "CompressPlusPlus",
            "delta": ref.rnd(r, 0.05, 0.5),
        }
        k = {"k": "SquaredExponential", "ls": ref.rnd(r, 0.7, 1.5), "os": 1.0}
        c["k"] = k
        c["ks"] = dict(k, ls=k["ls"] / 2)
        return c

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], ("normal", "clusters", "uniform"), (1.0,)),
            "w": {"style": "ones", "n": cfg["n"]},
            "key": draw(st.integers(0, 10**6)),
            "perm": draw(st.permutations(list(range(cfg["n"])))),
        }

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        x = points(case["x"])
        n, m = cfg["n"], cfg["m"]
        perm = np.array(case["perm"])
        run = compressor(json.dumps(cfg, sort_keys=True))
        keys = jax.random.split(jax.random.key(case["key"]), 2 * self.N)
        a = np.asarray(run(keys[: self.N], Data(jnp_array(x))))
        b = np.asarray(run(keys[self.N :], Data(jnp_array(x[perm]))))
        for r in (a, b):
            rec.require(r.shape == (self.N, m), "result of shape %s", r.shape)
            rec.require(r.min() >= 0 and r.max() < n, "index out of range")
            srt = np.sort(r, 1)
            rec.require(m == 1 or np.all(np.diff(srt, axis=1) > 0), "repeated indices")
        b = perm[b]
        # joint outcomes are too many: compare per-point and per-pair inclusion
        gram = ref.gram(cfg["k"], x, x)
        ind = [np.zeros((self.N, n)), np.zeros((self.N, n))]
        for r, z in zip((a, b), ind):
            np.put_along_axis(z, r, 1.0, 1)
        pa, pb = ind[0].mean(0), ind[1].mean(0)
        # each difference is a bounded mean difference: Bonferroni over n points
        pool = (pa + pb) / 2
        sd = np.sqrt(np.maximum(pool * (1 - pool), 1.0 / self.N) * 2 / self.N)
        zmax = np.abs(pa - pb) / sd
        rec.require(
            zmax.max() < 7.5,
            "selection frequency of point %d depends on the order of the rows: %.3f vs %.3f",
            int(zmax.argmax()),
            pa[zmax.argmax()],
            pb[zmax.argmax()],
        )
        mu = gram.mean(1)
        q = lambda z: ((z @ gram) * z).sum(1) / m**2 - 2 * (z @ mu) / m + gram.mean()
        got = np.concatenate([q(z) for z in ind]).mean()
        # exact expectation over uniform samples without replacement
        d = np.trace(gram)
        off = gram.sum() - d
        exp = (d / n * m + off / (n * (n - 1)) * m * (m - 1)) / m**2 - 2 * gram.mean() + gram.mean()
        rec.require(
            got <= exp * 0.9 + 1e-9,
            "mean squared MMD %.5g is not below that of random samples %.5g",
            got,
            exp,
        )
        rec.tag(f"g={cfg['g']}", "clipped" if 4 ** int(round(math.log(n, 4), 9) // 1) < n else "power of 4")
        rec.mark()


@register
class CompressConfig(PTest):
    """Compress++ accepts exactly the documented combinations of data size, coreset size
    and oversampling factor and raises ValueError otherwise; non-trivial: always (about
    half of the drawn combinations are inadmissible)."""

    prop, name = "C08", "compress_config"
    configs, examples = 2, 60

    def config(self, r, i):
        return dict(kconf(r, 1), i=i)

    def case(self, draw, cfg):
        n = draw(st.sampled_from([1, 2, 3, 4, 5, 15, 16, 17, 63, 64, 65, 255, 256, 257]))
        return {
            "n": n,
            "m": draw(st.one_of(st.integers(1, min(n, 40)), st.sampled_from([n, n + 1, 2 * n]))),
            "g": draw(st.integers(-1, 5)),
        }

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        n, m, g = case["n"], case["m"], case["g"]
        p = 0
        while 4 ** (p + 1) <= n:
            p += 1
        ok = m <= n and 0 <= g <= p and m <= 2 ** (g + p)
        data = Data(jnp_array(np.linspace(-1, 1, n)[:, None]))
        s = compress(cfg, m, g, jax.random.key(0))
        if ok and p - g > 2:  # tracing deep recursions takes minutes
            raise Inconclusive
        rec.mark()
        rec.tag("admissible" if ok else "inadmissible")
        try:
            out = jax.eval_shape(lambda d: s.reduce(d)[0].unweighted_indices, data)
        except ValueError as e:
            rec.require(not ok, "n=%d m=%d g=%d rejected: %s", n, m, g, e)
            return
        rec.require(ok, "n=%d m=%d g=%d accepted", n, m, g)
        rec.require(out.shape == (m,), "n=%d m=%d g=%d: %s points", n, m, g, out.shape)
