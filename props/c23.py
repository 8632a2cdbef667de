"""C23 numerical utilities."""

import math

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import greedy
from vp.core import TOL, PTest, draw_points, jnp_array, points, register


def _fns():
    import jax.numpy as jnp

    return {
        "diff": (lambda a, b: a - b, lambda a, b: a - b),
        "asym": (lambda a, b: jnp.sum(a) + 3 * jnp.sum(b), lambda a, b: np.sum(a) + 3 * np.sum(b)),
        "outer": (lambda a, b: jnp.outer(a, b), lambda a, b: np.outer(a, b)),
    }


@register
class Pairwise(PTest):
    """pairwise(f) has entry (i, j) = f(x_i, y_j) for arguments of rank 0, 1 and 2 and f of
    any output rank, and squared_distance / difference are exact; non-trivial: more than
    one row on a side."""

    prop, name = "C23", "pairwise"
    configs, examples = 6, 15

    def config(self, r, i):
        d = r.choice([1, 2, 3])
        rk = [(2, 2), (1, 2), (2, 1), (1, 1), (0, 0), (0, 2)][i % 6]
        if 0 in rk:
            d = 1
        return {
            "n": r.randint(1, 7) if rk[0] == 2 else 1, "m": r.randint(1, 7) if rk[1] == 2 else 1,
            "d": d, "rk": rk, "fn": r.choice(["diff", "asym", "outer"]),
        }

    def case(self, draw, cfg):
        sty = ("lattice", "normal", "offset", "dups")
        return {"x": draw_points(draw, cfg["n"], cfg["d"], sty), "y": draw_points(draw, cfg["m"], cfg["d"], sty)}

    def check(self, cfg, case, rec):
        from coreax.util import difference, pairwise, squared_distance

        x, y = points(case["x"]), points(case["y"])

        def shape(a, rank):
            a = jnp_array(a)
            return a if rank == 2 else a[0] if rank == 1 else a[0, 0]

        jx, jy = shape(x, cfg["rk"][0]), shape(y, cfg["rk"][1])
        f, g = _fns()[cfg["fn"]]
        want = np.array([[g(a, b) for b in y] for a in x])
        rec.close(pairwise(f)(jx, jy), want, "pairwise " + cfg["fn"], TOL.pick(1e-6, 1e-14))
        d2 = ((x[:, None] - y[None]) ** 2).sum(-1)
        rec.close(pairwise(squared_distance)(jx, jy), d2, "squared distances", TOL.pick(2e-6, 1e-14))
        rec.close(pairwise(difference)(jx, jy), x[:, None] - y[None], "differences", TOL.pick(1e-6, 1e-14))
        one = [shape(x, min(1, cfg["rk"][0])), shape(y, min(1, cfg["rk"][1]))]
        rec.close(squared_distance(*one), d2[0, 0], "squared distance", TOL.pick(2e-6, 1e-14))
        rec.close(difference(*one), x[0] - y[0], "difference", TOL.pick(1e-6, 1e-14))
        rec.tag("rank%s" % (cfg["rk"],), cfg["fn"])
        rec.mark(len(x) + len(y) > 2)


@eqx.filter_jit
def many_batches(keys, n, b, k):
    import jax
    from coreax.util import sample_batch_indices

    return jax.vmap(lambda key: sample_batch_indices(key, n, b, k))(keys)


@register
class Batches(PTest):
    """sample_batch_indices: shape, range, distinctness within a batch; over thousands of
    keys every batch is a uniformly distributed ordered sample, different batches are
    independent, and inadmissible sizes are rejected; non-trivial: 1 < batch < n or more
    than one batch."""

    prop, name = "C23", "batches"
    configs, examples = 5, 8
    N = 6000

    def config(self, r, i):
        n, b, k = r.choice([(3, 2, 1), (4, 2, 1), (3, 1, 2), (2, 2, 2), (3, 2, 2), (4, 4, 1), (5, 1, 2), (6, 2, 1)])
        return {"n": n, "b": b, "k": k}

    def case(self, draw, cfg):
        return {"key": draw(st.integers(0, 10**6))}

    def check(self, cfg, case, rec):
        import itertools

        import jax
        from coreax.util import sample_batch_indices

        n, b, k = cfg["n"], cfg["b"], cfg["k"]
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        got = np.asarray(many_batches(keys, n, b, k))
        rec.require(got.shape == (self.N, k, b), "shape %s", got.shape)
        rec.require(got.min() >= 0 and got.max() < n, "indices out of range 0..%d", n - 1)
        srt = np.sort(got, -1)
        rec.require(np.all(srt[..., 1:] != srt[..., :-1]), "repeated index within a batch")
        one = list(itertools.permutations(range(n), b))
        law = {}
        for combo in itertools.product(one, repeat=k):
            law[tuple(v for c in combo for v in c)] = 1.0 / len(one) ** k
        greedy.law_test(rec, greedy.tally(got.reshape(self.N, -1)), law, f"batches n={n} b={b} k={k}", 1e-6)
        a, c = (np.asarray(sample_batch_indices(keys[0], n, b, k)) for _ in range(2))
        rec.require(np.array_equal(a, c), "the same key gave different batches")
        for bad in (n + 1, n + 5, -1):
            try:
                sample_batch_indices(keys[0], n, bad, k)
            except ValueError:
                continue
            rec.require(False, "batch size %d of %d accepted", bad, n)
        rec.mark(k > 1 or 1 < b < n)


@register
class Trees(PTest):
    """Zero padding appends rows of zeros to every array leaf and keeps the rest; leaf
    repetition flattens (None is a leaf) and repeats the trailing leaf; negative pad widths
    are rejected; non-trivial: something is padded or repeated."""

    prop, name = "C23", "trees"
    configs, examples = 2, 25

    def config(self, r, i):
        return {"x": r.randrange(2)}

    def case(self, draw, cfg):
        leaf = st.sampled_from([None, 0, 1, 3, 2.5, "a"])
        tree = st.recursive(leaf, lambda s: st.lists(s, min_size=1, max_size=3), max_leaves=5)
        n = draw(st.integers(1, 5))
        return {
            "n": n, "pad": draw(st.integers(0, 4)), "dims": draw(st.lists(st.integers(1, 3), max_size=2)),
            "tree": draw(tree), "len": draw(st.integers(0, 7)), "neg": draw(st.integers(-3, -1)),
            "seed": draw(st.integers(0, 10**6)), "int": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Data
        from coreax.util import tree_leaves_repeat, tree_zero_pad_leading_axis

        n, pad = case["n"], case["pad"]
        rng = np.random.default_rng(case["seed"])
        a = rng.normal(size=(n, *case["dims"])).astype(np.float32)
        b = rng.integers(1, 9, size=n + 1)
        w = rng.uniform(0.5, 2, size=n).astype(np.float32)
        x2 = rng.normal(size=(n, 2)).astype(np.float32)
        tree = {"a": jnp.asarray(a), "k": 3, "b": (jnp.asarray(b), None, "s"), "d": Data(jnp.asarray(x2), jnp.asarray(w))}
        out = tree_zero_pad_leading_axis(tree, pad)

        def z(v):
            return np.concatenate([v, np.zeros((pad, *v.shape[1:]), v.dtype)])

        for got, want in (
            (out["a"], a), (out["b"][0], b), (out["d"].data, x2), (out["d"].weights, w),
        ):
            rec.require(np.array_equal(np.asarray(got), z(want)), "padding by %d: %s from %s", pad, got, want)
            rec.require(np.asarray(got).dtype == jnp.asarray(want).dtype, "dtype changed by padding")
        rec.require(out["k"] == 3 and out["b"][1] is None and out["b"][2] == "s", "other leaves changed")
        rec.require(np.array_equal(np.asarray(tree["a"]), a), "input modified")
        try:
            tree_zero_pad_leading_axis(tree, case["neg"])
        except ValueError:
            pass
        else:
            rec.require(False, "pad width %d accepted", case["neg"])

        def flat(t):
            if isinstance(t, list):
                return [v for s in t for v in flat(s)]
            return [t]

        leaves = flat(case["tree"])
        want = leaves + leaves[-1:] * max(0, case["len"] - len(leaves))
        got = tree_leaves_repeat(case["tree"], case["len"])
        rec.require(list(got) == want, "leaves %s of %s with length %d", got, case["tree"], case["len"])
        rec.mark(pad > 0 or len(want) > len(leaves))


@register
class Scalars(PTest):
    """The negative-precision threshold rounds exactly the values in (-threshold, 0) to
    zero; the median heuristic is sqrt(median squared distance of distinct pairs / 2);
    format_time expresses the time in the documented unit to two decimals; non-trivial: a
    negative value, or more than two points."""

    prop, name = "C23", "scalars"
    configs, examples = 5, 25

    def config(self, r, i):
        return {"n": r.randint(2, 9), "d": r.choice([1, 1, 2, 3])}

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], ("lattice", "normal", "dups", "skew")),
            "mant": draw(st.sampled_from([1.07, 1.5, 2.345, 4.531, 9.2])),
            "exp": draw(st.integers(-14, 6)),
            "neg": draw(st.booleans()),
            "ratio": draw(st.sampled_from([-100.0, -2.0, -1.01, -0.99, -0.5, -1e-3, 0.0, 1e-3, 0.5, 2.0])),
            "thr": draw(st.sampled_from([1e-8, 1e-4, 0.03125, 2.0, -0.5])),
            "vec": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        from coreax.kernels import median_heuristic
        from coreax.util import apply_negative_precision_threshold, format_time

        thr, v = case["thr"], case["ratio"] * abs(case["thr"])
        got = np.asarray(apply_negative_precision_threshold(jnp_array(v), thr))
        want = 0.0 if -abs(thr) < v < 0 else v
        rec.close(got, want, f"threshold {thr} of {v}", TOL.pick(1e-6, 1e-14), 0)
        if abs(thr) > 1e-6:
            rec.close(
                apply_negative_precision_threshold(float(v)), v, f"default threshold of {v}", TOL.pick(1e-6, 1e-14), 0
            ) if not -1e-8 < v < 0 else None

        x = points(case["x"])
        d2 = [((x[i] - x[j]) ** 2).sum() for i in range(len(x)) for j in range(i + 1, len(x))]
        arg = jnp_array(x)[:, 0] if cfg["d"] == 1 and case["vec"] else jnp_array(x)
        got = median_heuristic(arg)
        rec.close(got, np.sqrt(np.median(d2) / 2), "median heuristic", TOL.pick(1e-5, 1e-13), TOL.pick(1e-5, 1e-12))

        t = case["mant"] * 10.0 ** case["exp"] * (-1 if case["neg"] else 1)
        text = format_time(t)
        for low, name, unit in (
            (100, "mins", 60.0), (1, "s", 1.0), (1e-3, "ms", 1e-3), (1e-6, "\u03bcs", 1e-6), (1e-9, "ns", 1e-9), (0, "ps", 1e-12),
        ):
            if abs(t) >= low:
                break
        parts = text.split(" ")
        rec.require(len(parts) == 2 and parts[1] == name, "format_time(%r) = %r, expected %s", t, text, name)
        rec.require(
            abs(float(parts[0]) - t / unit) <= 0.00501 + 1e-9 * abs(t / unit), "format_time(%r) = %r", t, text
        )
        rec.require(format_time(0.0) == "0 s", "format_time(0) = %r", format_time(0.0))
        rec.mark(v < 0 or len(x) > 2)


@register
class Speed(PTest):
    """speed_comparison_test reports, per function and in order, the mean and standard
    deviation of the timings it returns, under the given or default names, divided by the
    normalisation; the functions are called with their arguments; non-trivial: more than
    one function."""

    prop, name = "C23", "speed"
    configs, examples = 1, 5

    def config(self, r, i):
        return {}

    def case(self, draw, cfg):
        return {
            "names": draw(st.lists(st.sampled_from([None, "f", "g", "h"]), min_size=1, max_size=3)),
            "runs": draw(st.integers(1, 3)),
            "norm": draw(st.booleans()),
        }

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax.util import JITCompilableFunction, speed_comparison_test

        calls = []

        def make(k):
            def fn(x, *, y):
                calls.append(k)
                return jnp.sin(x) + y + k

            return fn

        raw, seen = case["names"], set()
        names = [None if v in seen else (seen.add(v) or v) for v in raw]
        setups = [
            JITCompilableFunction(make(k), (1.0,), {"y": 2.0}, name=nm) for k, nm in enumerate(names)
        ]
        norm = (1e9, 1e-9) if case["norm"] else None
        results, timings = speed_comparison_test(setups, num_runs=case["runs"], normalisation=norm)
        want = [nm if nm is not None else f"function_{k + 1}" for k, nm in enumerate(names)]
        rec.require(list(timings) == want, "names %s, expected %s", list(timings), want)
        rec.require(len(results) == len(want), "%d results", len(results))
        for nm, (mean, std) in zip(want, results):
            t = np.asarray(timings[nm], dtype=float)
            rec.require(t.shape == (case["runs"], 2), "timings of shape %s", t.shape)
            rec.close(mean, t.mean(0), "mean timing", 1e-4)
            rec.close(std, t.std(0), "deviation of timing", 1e-3, atol=1e-5 * np.abs(t).max())
            rec.require(np.all(t[:, 1] > 0), "execution time %s", t[:, 1])
            if norm:
                # any real time is between a tenth of a microsecond and an hour
                rec.require(np.all(np.abs(t[:, 0]) < 1e-5) and np.all(t[:, 1] > 50), "normalised timings %s", t)
            else:
                rec.require(np.all(np.abs(t) < 3600), "timings %s", t)
        rec.require(sorted(set(calls)) == list(range(len(want))), "functions called: %s", calls)
        rec.mark(len(want) > 1)
