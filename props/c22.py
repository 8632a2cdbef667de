"""C22 random sampling follows the requested law."""

import functools
import itertools
import json
import math

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import greedy
from vp.core import PTest, draw_weights, jnp_array, register, weights


@functools.lru_cache(maxsize=None)
def sampler(cfg_json):
    import jax
    import coreax.solvers as cs

    c = json.loads(cfg_json)

    @eqx.filter_jit
    def run(keys, data):
        def one(k):
            s = cs.RandomSample(c["m"], random_key=k, weighted=c["weighted"], unique=c["unique"])
            return s.reduce(data)[0].unweighted_indices

        return jax.vmap(one)(keys)

    return run


def law(p, m, unique):
    """Law of the sorted sample, from the ordered one."""
    out = {}
    n = len(p)

    def go(sel, q, left):
        if len(sel) == m:
            k = tuple(sorted(sel))
            out[k] = out.get(k, 0.0) + q
            return
        tot = left.sum()
        for j in range(n):
            if left[j] > 0:
                rest = left
                if unique:
                    rest = left.copy()
                    rest[j] = 0.0
                go(sel + [j], q * left[j] / tot, rest)

    go([], 1.0, np.asarray(p, float))
    return out


@register
class Law(PTest):
    """Over thousands of keys the joint frequencies of the sampled multiset follow the
    exactly enumerated law (uniform or weighted, with or without replacement), which
    excludes zero-weighted points from weighted samples; non-trivial: more than one
    outcome and (if weighted) unequal weights."""

    prop, name = "C22", "law"
    configs, examples = 8, 12
    N = 10000

    def config(self, r, i):
        n, m = [(5, 2), (4, 3), (6, 2), (3, 3), (4, 1), (6, 3), (2, 2)][r.randrange(7)]
        return {"n": n, "m": m, "weighted": i % 2 == 1, "unique": (i // 2) % 2 == 1, "d": r.choice([1, 2])}

    def case(self, draw, cfg):
        return {
            "w": draw_weights(draw, cfg["n"], ("ones", "const", "ints", "floats", "spread", "zeros")),
            "key": draw(st.integers(0, 10**6)),
        }

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        n, m = cfg["n"], cfg["m"]
        w = weights(case["w"])
        if cfg["weighted"] and cfg["unique"]:
            for j in np.flatnonzero(w == 0):
                if (w > 0).sum() >= m:
                    break
                w[j] = 1.0
        data = Data(jnp_array(np.arange(n * cfg["d"]).reshape(n, -1)), jnp_array(w))
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        rows = np.asarray(sampler(json.dumps(cfg, sort_keys=True))(keys, data))
        rec.require(rows.shape == (self.N, m), "sample of shape %s", rows.shape)
        rec.require(rows.min() >= 0 and rows.max() < n, "index out of range")
        p = w if cfg["weighted"] else np.ones(n)
        if cfg["unique"]:
            bad = [r.tolist() for r in rows if len(set(r.tolist())) < m]
            rec.require(not bad, "repeated indices %s", bad[:1])
        rec.require(np.all(p[rows] > 0), "zero-weighted point drawn")
        model = law(p, m, cfg["unique"])
        greedy.law_test(
            rec, greedy.tally(np.sort(rows, 1)), model,
            f"random sample (weighted={cfg['weighted']}, unique={cfg['unique']})", 1e-5,
        )
        rec.tag("weighted" if cfg["weighted"] else "uniform", "unique" if cfg["unique"] else "iid")
        rec.mark(len(model) > 1 and (not cfg["weighted"] or np.ptp(w) > 0))


@register
class Large(PTest):
    """On larger data every point is included as often as the law says (uniform samples,
    and weighted samples with replacement), and every pair of slots is jointly as
    distributed; non-trivial: always."""

    prop, name = "C22", "large"
    configs, examples = 3, 4
    N = 3000

    def config(self, r, i):
        n, m = r.choice([(30, 12), (64, 64), (100, 17), (200, 3), (12, 12)])
        weighted = i % 2 == 1
        return {"n": n, "m": m, "weighted": weighted, "unique": not weighted and i % 4 == 0, "d": 1}

    def case(self, draw, cfg):
        return {
            "w": draw_weights(draw, cfg["n"], ("ones", "ints", "floats", "zeros")),
            "key": draw(st.integers(0, 10**6)),
        }

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        n, m = cfg["n"], cfg["m"]
        w = weights(case["w"])
        data = Data(jnp_array(np.arange(n)[:, None] * 1.0), jnp_array(w))
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        rows = np.asarray(sampler(json.dumps(cfg, sort_keys=True))(keys, data))
        p = w / w.sum() if cfg["weighted"] else np.full(n, 1 / n)
        kind = f"random sample of {m} of {n} (weighted={cfg['weighted']}, unique={cfg['unique']})"
        if cfg["unique"]:
            rec.require(all(len(set(r)) == m for r in rows.tolist()), "%s: repeated index", kind)
        if m < n or not cfg["unique"]:
            counts = {(int(j),): int(c) for j, c in zip(*np.unique(rows, return_counts=True))}
            greedy.law_test(rec, counts, {(j,): p[j] for j in range(n)}, kind + ": points", 1e-5)
        # coarse joint law of two slots: blocks of points
        blk = np.arange(n) * 4 // n
        joint = np.zeros((4, 4))
        for a in range(n):
            for b in range(n):
                if not cfg["unique"]:
                    joint[blk[a], blk[b]] += p[a] * p[b]
                elif a != b:
                    joint[blk[a], blk[b]] += 1 / (n * (n - 1))
        model = {(a, b): joint[a, b] for a in range(4) for b in range(4)}
        rng = np.random.default_rng(case["key"])
        for _ in range(6):
            i, j = rng.choice(m, 2, replace=False)
            greedy.law_test(rec, greedy.tally(blk[rows[:, [i, j]]]), model, f"{kind}: slots {i}, {j}", 1e-5)
        rec.mark()
