"""C07 greedy kernel points minimises the ridge-regression loss greedily."""

import functools
import itertools
import json

import numpy as np
from hypothesis import strategies as st

from props import greedy, ref, solv
from vp.core import TOL, Inconclusive, PTest, register

NAMES = ref.STATIONARY + ("Linear", "Polynomial")


def loss_terms(gram, y, sel, lam):
    """Per-point squared residuals of the ridge regression fitted on ``sel``."""
    if len(sel) == 0:
        return y**2
    k = gram[np.ix_(sel, sel)] + lam * np.eye(len(sel))
    return (y - gram[:, sel] @ np.linalg.solve(k, y[sel])) ** 2


def tolerance(c, gram, y, m):
    cond = (m * np.abs(gram).max() + c["lam"]) / c["lam"]
    pred = np.abs(gram).max() * m * np.abs(y).max() / c["lam"]
    pred = min(pred, 20 * np.abs(y).max() * np.sqrt(len(y)))
    base = (np.abs(y).max() + pred) ** 2 * len(y) ** 0.5
    return TOL.pick(3e-7, 1e-14) * cond * base * (30 if c["lsq"] else 1) + 1e-12


class Model:
    def __init__(self, c, gram, y):
        self.c, self.gram, self.y, self.n = c, gram, y, len(y)
        self.tol = tolerance(c, gram, y, c["m"])

    def options(self, slots, i):
        """(indices, per-point losses) of the valid choices for slot i."""
        others = [s for j, s in enumerate(slots) if j != i and s is not None]
        cand = [
            j for j in range(self.n) if not (self.c["unique"] and j in others)
        ]
        terms = np.array(
            [loss_terms(self.gram, self.y, others + [j], self.c["lam"]) for j in cand]
        )
        return cand, terms, len(set(others))


def follow(rec, c, model, init, idx, what):
    n, m = model.n, c["m"]
    cb = n if c["cb"] is None else min(c["cb"], n)
    lb = n if c["lb"] is None else min(c["lb"], n)
    slots = list(init[:m]) + [None] * (m - len(init[:m]))
    decided = 0
    for i, j in enumerate(idx.tolist()):
        cand, terms, used = model.options(slots, i)
        rec.require(j in cand, "%s: slot %d of %s holds unavailable %d", what, i, idx, j)
        own = slots[i]
        slots[i] = j
        if c["unique"] and cb <= used and own is None:
            continue  # every sampled candidate may already be a member
        k = cand.index(j)
        if lb == n:
            views = [terms.sum(1)]
        elif lb == n - 1:
            views = [terms.sum(1) - terms[:, o] for o in range(n)]
        elif lb == 1:
            views = [terms[:, o] for o in range(n)]
        else:
            continue
        better = [int((v < v[k] - model.tol).sum()) for v in views]
        rec.require(
            min(better) <= n - cb,
            "%s: slot %d of %s holds %d, but %d other points give a smaller loss (at most "
            "%d may be outside the candidate batch); e.g. %d: %.9g < %.9g",
            what,
            i,
            idx,
            j,
            min(better),
            n - cb,
            cand[int(views[0].argmin())],
            views[0].min(),
            views[0][k],
        )
        if lb == n and cb == n:
            rest = np.delete(views[0], k)
            decided += bool(rest.size and views[0][k] < rest.min() - model.tol)
        elif lb < n and cb == n:
            # the view must discriminate
            decided += any(len(v) > 1 and np.sort(v)[1] > v.min() + model.tol for v in views)
        else:
            decided += max(int((v > v[k] + model.tol).sum()) for v in views) > n // 4
    return decided


def conf(r, i):
    n, d, m = solv.SHAPES[i % len(solv.SHAPES)]
    kind = i % 5
    return {
        "s": "GreedyKernelPoints",
        "n": n,
        "d": d,
        "m": m,
        "k": ref.random_base(r, NAMES, d),
        "unique": r.random() < 0.65,
        "lam": ref.rnd(r, 0.1, 2.0),
        "cb": None if kind < 2 else r.choice([n, n + 4, n - 1, max(1, n // 2), 2]),
        "lb": None if kind != 1 else r.choice([n - 1, 1, n + 2, n]) if n > 1 else None,
        "lsq": "rand" if kind == 4 else None,
        "neg": r.random() < 0.15,
    }


def solver(c, key):
    s = solv.build({**c, "lam": -c["lam"] if c["neg"] else c["lam"]}, key)
    return s


STY = ("normal", "lattice", "dups", "clusters", "uniform")


@register
class Reduce(PTest):
    """Each point added by greedy kernel points gives the smallest ridge-regression loss
    over the data (or over the sampled loss batch) among the available candidates, in a
    float64 replay; with candidate batches, no more better points exist than lie outside
    a batch; non-trivial: at least two choices are decided by more than the tolerance."""

    prop, name = "C07", "reduce"
    configs, examples = 10, 12

    def config(self, r, i):
        return conf(r, i)

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, styles=STY)
        case["state"] = draw(st.booleans())
        return case

    def check(self, cfg, case, rec):
        data, x, w, y = solv.make_data(cfg, case)
        s = solver(cfg, case["key"])
        state = None
        if case["state"]:
            _, state = solv.reduce_(solver({**cfg, "m": 1}, 0), data)
        out, _ = solv.reduce_(s, data, state)
        idx = solv.indices_of(out)
        model = Model(cfg, ref.gram(cfg["k"], x, x), y[:, 0])
        dec = follow(rec, cfg, model, [], idx, "greedy kernel points")
        rec.tag(
            "all candidates" if (cfg["cb"] or cfg["n"]) >= cfg["n"] else "candidate batch",
            "full loss" if (cfg["lb"] or cfg["n"]) >= cfg["n"] else "loss batch",
            "approximate least squares" if cfg["lsq"] else "exact least squares",
        )
        rec.mark(dec >= min(2, cfg["m"]))


@register
class Refine(PTest):
    """Refining any coresubset (under-sized, full, over-sized) picks slot by slot the
    candidate of smallest loss given the other members, and refining a full-size one
    never increases the loss, with or without candidate batches; non-trivial: at least
    two choices are decided."""

    prop, name = "C07", "refine"
    configs, examples = 10, 12

    def config(self, r, i):
        c = conf(r, i)
        n, m = c["n"], c["m"]
        c["l0"] = r.choice([m, m, max(1, m - 1), max(1, m // 2), min(n, m + 2)])
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, styles=STY)
        case["init"] = draw(st.permutations(list(range(cfg["n"]))))[: cfg["l0"]]
        return case

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset

        data, x, w, y = solv.make_data(cfg, case)
        init = Coresubset.build(jnp.asarray(case["init"], dtype=jnp.int32), data)
        out, _ = solv.refine_(solver(cfg, case["key"]), init)
        idx = solv.indices_of(out)
        model = Model(cfg, ref.gram(cfg["k"], x, x), y[:, 0])
        dec = follow(rec, cfg, model, case["init"], idx, "refinement")
        if cfg["l0"] >= cfg["m"] and (cfg["lb"] or cfg["n"]) >= cfg["n"]:
            a = loss_terms(model.gram, model.y, case["init"][: cfg["m"]], cfg["lam"]).sum()
            b = loss_terms(model.gram, model.y, idx.tolist(), cfg["lam"]).sum()
            rec.require(
                b <= a + model.tol * (cfg["m"] + 1), "refinement increased the loss %.9g -> %.9g", a, b
            )
            rec.tag("loss compared")
        rec.tag(f"size {np.sign(cfg['l0'] - cfg['m'])}")
        rec.mark(dec >= min(2, cfg["m"]))


@functools.lru_cache(maxsize=None)
def sampler(cfg_json, refine):
    import equinox as eqx
    import jax
    import jax.numpy as jnp
    from coreax import Coresubset

    cfg = json.loads(cfg_json)

    @eqx.filter_jit
    def run(keys, data, init):
        def one(key):
            s = solver(cfg, 0)
            s = eqx.tree_at(lambda t: t.random_key, s, key)
            if refine:
                out, _ = s.refine(Coresubset.build(init, data))
            else:
                out, _ = s.reduce(data)
            return out.unweighted_indices

        return jax.lax.map(one, keys, batch_size=512)

    return run


@register
class Law(PTest):
    """Over many random keys, the joint frequencies of the indices chosen with candidate
    and loss batches follow the exactly enumerated law of independent uniform batches
    (without replacement), one per slot, each slot taking the candidate of smallest loss;
    non-trivial: at least three outcomes are possible."""

    prop, name = "C07", "law"
    configs, examples = 2, 8
    N = 4000

    def config(self, r, i):
        n, m = r.choice([(5, 2), (4, 2), (5, 3), (6, 2)])
        return {
            "s": "GreedyKernelPoints",
            "n": n,
            "d": r.choice([1, 2]),
            "m": m,
            "k": ref.random_base(r, ref.STATIONARY, 2),
            "unique": r.random() < 0.6,
            "lam": ref.rnd(r, 0.1, 1.0),
            "cb": r.choice([m, m, m + 1, n - 1]),
            "lb": r.choice([None, None, n - 1, 2]),
            "lsq": None,
            "neg": False,
            "refine": r.random() < 0.4,
        }

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, styles=("normal", "uniform", "clusters"))
        case["init"] = draw(st.permutations(list(range(cfg["n"]))))[: cfg["m"]]
        return case

    def check(self, cfg, case, rec):
        import jax
        import jax.numpy as jnp

        data, x, w, y = solv.make_data(cfg, case)
        n, m = cfg["n"], cfg["m"]
        model = Model(cfg, ref.gram(cfg["k"], x, x), y[:, 0])
        cands = list(itertools.combinations(range(n), min(n, cfg["cb"])))
        losses = list(itertools.combinations(range(n), cfg["lb"] or n))
        paths = {tuple(case["init"]) if cfg["refine"] else (None,) * m: 1.0}
        for i in range(m):
            nxt = {}
            for slots, p in paths.items():
                opts, terms, _ = model.options(list(slots), i)
                for lb in losses:
                    v = terms[:, list(lb)].sum(1)
                    gaps = np.diff(np.sort(v))
                    if gaps.size and gaps.min() <= 4 * model.tol:
                        raise Inconclusive("nearly tied losses")
                    order = [opts[k] for k in np.argsort(v)]
                    for cb in cands:
                        pool = set(cb) | ({slots[i]} if cfg["refine"] else set())
                        j = next(o for o in order if o in pool)
                        new = slots[:i] + (j,) + slots[i + 1 :]
                        nxt[new] = nxt.get(new, 0.0) + p / len(losses) / len(cands)
            paths = nxt
        run = sampler(json.dumps(cfg, sort_keys=True), cfg["refine"])
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        rows = run(keys, data, jnp.asarray(case["init"], dtype=jnp.int32))
        what = "refinement" if cfg["refine"] else "reduction"
        greedy.law_test(rec, greedy.tally(rows), paths, f"greedy kernel points {what}")
        rec.tag(what, "loss batch" if cfg["lb"] else "full loss")
        rec.mark(len(paths) >= 3)
