"""C09 randomly pivoted Cholesky: law of the pivots, residual diagonal, uniqueness."""

import functools
import json

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import greedy, ref, solv
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, weights

NAMES = ref.STATIONARY + ("Linear", "Polynomial")


def solver(c, key):
    import coreax.solvers as cs

    return cs.RPCholesky(c["m"], random_key=key, kernel=ref.build(c["k"]), unique=c["unique"])


@functools.lru_cache(maxsize=None)
def sampler(cfg_json):
    import jax

    c = json.loads(cfg_json)

    @eqx.filter_jit
    def run(keys, data):
        return jax.vmap(lambda k: solver(c, k).reduce(data)[0].unweighted_indices)(keys)

    return run


def residual(gram, sel):
    """Diagonal of the residual matrix after pivoting on ``sel`` (least squares)."""
    if len(sel) == 0:
        return np.diag(gram).copy()
    a = gram[np.ix_(sel, sel)]
    return np.maximum(np.diag(gram) - (gram[:, sel] * (np.linalg.pinv(a, rcond=1e-12) @ gram[sel]).T).sum(1), 0)


def law(gram, m, tiny, fallback):
    """Exact law of the first m' <= m pivots; m' is as large as rounding leaves decided.

    ``fallback``: the residual is exactly zero once exhausted, and the remaining pivots
    are uniform over the unused points.
    """
    n = len(gram)
    level = {(): 1.0}
    total0 = np.trace(gram)
    for _ in range(m):
        nxt = {}
        for sel, p in level.items():
            d = residual(gram, list(sel))
            d[list(sel)] = 0.0
            d[d < 1e-11 * total0] = 0.0
            if d.sum() <= tiny * total0:
                if not (fallback and d.sum() == 0):
                    return level
                d = np.ones(n)
                d[list(sel)] = 0.0
            for j in np.flatnonzero(d):
                nxt[sel + (int(j),)] = p * d[j] / d.sum()
        level = nxt
    return level


@register
class Law(PTest):
    """Over thousands of keys, the joint frequencies of the pivots follow the exactly
    enumerated law (each pivot proportional to the residual diagonal, and uniform over the
    unused points once the residual is exactly zero); non-trivial: the law is not uniform
    or the fallback is reached."""

    prop, name = "C09", "law"
    configs, examples = 5, 10
    N = 8000

    def config(self, r, i):
        n, m = [(5, 3), (4, 2), (6, 3), (4, 4), (7, 2), (5, 4)][i % 6]
        d = r.choice([1, 2])
        c = {"n": n, "m": m, "d": d, "unique": r.random() < 0.7, "exact": i % 3 == 2}
        if c["exact"]:
            c["k"] = {"k": "SquaredExponential", "ls": 1.0, "os": r.choice([1.0, 4.0, 0.25])}
            c["unique"] = True
        else:
            c["k"] = ref.random_base(r, NAMES, d)
        return c

    def case(self, draw, cfg):
        n = cfg["n"]
        case = {
            "x": draw_points(draw, n, cfg["d"], ("lattice", "normal", "clusters", "dups", "skew")),
            "w": draw_weights(draw, n, ("ones", "ints", "floats")),
            "key": draw(st.integers(0, 10**6)),
        }
        if cfg["exact"]:  # far groups of coincident points: residuals are exact
            case["grp"] = draw(st.lists(st.integers(0, 3), min_size=n, max_size=n))
        return case

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        x, w = points(case["x"]), weights(case["w"])
        if cfg["exact"]:
            x = np.repeat(np.array(case["grp"], float)[:, None] * 1000.0, cfg["d"], 1)
        data = Data(jnp_array(x), jnp_array(w))
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        rows = np.asarray(sampler(json.dumps(cfg, sort_keys=True))(keys, data))
        rec.require(rows.shape == (self.N, cfg["m"]), "result of shape %s", rows.shape)
        rec.require(rows.min() >= 0 and rows.max() < cfg["n"], "index out of range")
        if cfg["unique"]:
            bad = [r.tolist() for r in rows if len(set(r.tolist())) < cfg["m"]]
            rec.require(not bad, "repeated pivots %s (%d of %d keys)", bad[:1], len(bad), self.N)
        gram = ref.gram(cfg["k"], x, x)
        if np.trace(gram) <= 0:
            return
        model = law(gram, cfg["m"], TOL.pick(5e-3, 1e-7), cfg["exact"])
        depth = len(next(iter(model)))
        if depth == 0:
            return
        counts = greedy.tally(rows[:, :depth])
        greedy.law_test(rec, counts, model, "RPCholesky pivots", TOL.pick(1e-3, 1e-6))
        probs = np.array(list(model.values()))
        rec.tag(f"depth {depth}", "exact" if cfg["exact"] else cfg["k"]["k"])
        rec.mark(np.ptp(probs) > 1e-3 or cfg["exact"])


@register
class State(PTest):
    """On larger data: the returned state is the residual diagonal of the chosen pivots
    (zero at the pivots when unique), each pivot had a positive residual when chosen, and
    the indices are distinct; non-trivial: the residual is not exhausted."""

    prop, name = "C09", "state"
    configs, examples = 4, 12

    def config(self, r, i):
        n, m = [(20, 6), (12, 4), (30, 3), (9, 9)][i % 4]
        d = r.choice([1, 2, 3])
        return {
            "s": "RPCholesky", "n": n, "m": m, "d": d,
            "k": ref.random_base(r, NAMES, d), "unique": r.random() < 0.7,
        }

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, zeros=False)

    def check(self, cfg, case, rec):
        import jax

        data, x, w, _ = solv.make_data(cfg, case)
        out, state = solv.reduce_(solver(cfg, jax.random.key(case["key"])), data)
        idx = solv.valid(rec, cfg, out, data, x, None, "RPCholesky")
        rec.require(len(idx) == cfg["m"], "%d points", len(idx))
        if cfg["unique"]:
            rec.require(len(set(idx.tolist())) == len(idx), "repeated pivots %s", idx)
        gram = ref.gram(cfg["k"], x, x)
        tr = np.trace(gram)
        if tr <= 0:
            return
        tiny = TOL.pick(5e-3, 1e-7)
        for t, j in enumerate(idx.tolist()):
            d = residual(gram, idx[:t].tolist())
            if d.sum() <= tiny * tr:
                rec.tag("exhausted")
                return
            # pivots with a vanishing residual amplify rounding in later residuals
            if d[j] < TOL.pick(1e-2, 1e-4) * gram.max():
                rec.tag("small pivot")
                if TOL.x64:
                    rec.require(
                        d[j] > 1e-9 * d.sum(),
                        "pivot %d of %s has residual %.3g of %.3g: never to be drawn",
                        t, idx, d[j], d.sum(),
                    )
                return
        want = residual(gram, idx.tolist())
        if cfg["unique"]:
            want[idx] = 0.0
        got = np.asarray(state.gramian_diagonal)
        rec.close(got, want, "residual diagonal", rtol=0, atol=TOL.pick(2e-3, 1e-8) * gram.max())
        rec.mark()


@register
class Slots(PTest):
    """For points far apart the residual stays constant off the pivots, so any two pivots
    of a long selection are jointly uniform over pairs of distinct points; non-trivial:
    always."""

    prop, name = "C09", "slots"
    configs, examples = 1, 2
    N = 5000

    def config(self, r, i):
        n, m = r.choice([(12, 12), (14, 11), (18, 18), (24, 20)])
        return {"n": n, "m": m, "d": 1, "unique": r.random() < 0.5,
                "k": {"k": "SquaredExponential", "ls": 1.0, "os": 1.0}}

    def case(self, draw, cfg):
        return {"key": draw(st.integers(0, 10**6))}

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data

        n, m = cfg["n"], cfg["m"]
        data = Data(jnp_array(np.arange(n)[:, None] * 1000.0))
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        rows = np.asarray(sampler(json.dumps(cfg, sort_keys=True))(keys, data))
        rec.require(
            all(len(set(r)) == m for r in rows.tolist()), "repeated pivots of well separated points"
        )
        blk = np.arange(n) * 4 // n
        size = np.bincount(blk)
        joint = np.outer(size, size) - np.diag(size)
        model = {(a, b): joint[a, b] / (n * (n - 1)) for a in range(4) for b in range(4)}
        for i in range(m):
            for j in range(i + 1, m):
                greedy.law_test(rec, greedy.tally(blk[rows[:, [i, j]]]), model, f"pivots {i} and {j} of {m}", 1e-5)
        rec.mark()


@register
class StateIn(PTest):
    """Passing the diagonal of the kernel matrix as the state gives the pivots and residual
    of passing none (diagonals of any scale); non-trivial: the diagonal is not constant."""

    prop, name = "C09", "state given"
    configs, examples = 2, 8

    def config(self, r, i):
        c = State.config(self, r, i)
        c["k"] = ref.random_base(r, ("Linear", "Polynomial", "SquaredExponential"), c["d"])
        c["scale"] = r.choice([0.01, 1.0])
        return c

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, zeros=False)

    def check(self, cfg, case, rec):
        import jax
        from coreax import Data
        from coreax.solvers.coresubset import RPCholeskyState

        _, x, w, _ = solv.make_data(cfg, case)
        data = Data(jnp_array(x * cfg["scale"]), jnp_array(w))
        s = solver(cfg, jax.random.key(case["key"]))
        diag = jax.vmap(s.kernel.compute_elementwise)(data.data, data.data)
        a, sa = solv.reduce_(s, data)
        b, sb = solv.reduce_(s, data, RPCholeskyState(diag))
        ia, ib = solv.indices_of(a), solv.indices_of(b)
        gram = ref.gram(cfg["k"], x * cfg["scale"], x * cfg["scale"])
        tr = np.trace(gram)
        for t in range(len(ia)):  # beyond an exhausted residual rounding decides
            d = residual(gram, ia[:t].tolist())
            if d.sum() <= TOL.pick(5e-3, 1e-7) * tr:
                return
            rec.require(
                ia[t] == ib[t], "pivots %s with the diagonal as state, %s without", ib, ia
            )
            rec.mark(float(np.ptp(np.asarray(diag))) > 0)
            if d[ia[t]] < TOL.pick(1e-2, 1e-4) * gram.max():
                return
        rec.close(
            sb.gramian_diagonal, sa.gramian_diagonal, "residual with the diagonal as state",
            rtol=0, atol=TOL.pick(2e-3, 1e-8) * gram.max(),
        )
