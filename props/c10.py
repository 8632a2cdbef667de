"""C10 recombination preserves the centre of mass with few non-negative weights."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import solv
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, weights

STY = ("lattice", "normal", "dups", "clusters", "uniform", "line", "skew")
WST = ("ones", "const", "ints", "floats", "spread", "zeros", "tiny")


def build(c, mode):
    import coreax.solvers as cs

    kw = {"test_functions": solv.test_function(c["tf"]), "mode": mode, "rcond": c["rcond"]}
    if c["s"] == "Caratheodory":
        return cs.CaratheodoryRecombination(**kw)
    return cs.TreeRecombination(tree_reduction_factor=c["trf"], **kw)


@eqx.filter_jit
def run(solver, data):
    out, _ = solver.reduce(data)
    return out.unweighted_indices, out.points.weights


def judge(rec, c, x, w, idx, cw, mode):
    """All claims about one recombined measure; returns its weights on the data rows."""
    f = solv.feats(c["tf"], x)
    n, m = f.shape
    what = f"{c['s']} ({mode})"
    rec.require(
        idx.size == 0 or (idx.min() >= 0 and idx.max() < n), "%s: index out of range: %s", what, idx
    )
    scale = max(1.0, np.abs(f).max())
    # singular values below the cut-off are treated as zero by design
    eps = TOL.pick(1.2e-7, 2.3e-16)
    cut = eps * max(n, m) if c["rcond"] is None or c["rcond"] < 0 else c["rcond"]
    tol = 30 * max(cut, eps * max(n, m)) * n
    p = w / w.sum()
    if p[p > 0].min() < 1e-4:  # elimination amplifies rounding by the spread of the weights
        tol = max(tol, 1e5 * eps)
    rec.require(np.all(np.isfinite(cw)), "%s: weights %s", what, cw)
    rec.require(cw.min() >= -tol, "%s: negative weight %.3g", what, cw.min())
    rec.require(abs(cw.sum() - 1) <= tol, "%s: weights sum to %.9g", what, cw.sum())
    com, got = p @ f, cw @ f[idx]
    err = np.abs(com - got).max()
    rec.require(
        err <= tol * scale,
        "%s: centre of mass moved by %.3g (tolerance %.3g): %s instead of %s",
        what, err, tol * scale, got, com,
    )
    pos = idx[cw > tol]
    rec.require(np.all(w[pos] > 0), "%s: positive weight on a zero-weighted row", what)
    live = f[w > 0]
    sv = np.linalg.svd(live, compute_uv=False)
    rank_hi = int((sv > 1e-2 * cut * sv[0]).sum())  # an upper bound on the rank found
    nz = idx[cw > 0]
    rec.require(
        len(nz) <= min(m, n), "%s: %d non-zero weights for %d test functions", what, len(nz), m
    )
    gap = rank_hi == int((sv > 1e2 * cut * sv[0]).sum())
    if gap:
        rec.require(
            (cw > tol).sum() <= rank_hi,
            "%s: %d positive weights but the push-forward has rank %d",
            what, int((cw > tol).sum()), rank_hi,
        )
        if rank_hi < m:
            rec.tag("rank deficient")
        # rounding can eliminate a row whose weight is below the tolerance in place of one
        # of the copies of the heaviest row that stand in for zero-weighted rows
        if p[p > 0].min() > tol:
            rec.require(
                len(set(pos.tolist())) == len(pos),
                "%s: positive weights repeat a row: %s", what, pos,
            )
            rec.tag("distinct")
    size = {"implicit-explicit": min(n, m), "implicit": n}.get(mode)
    if size is not None and not (c["s"] == "Tree" and mode == "implicit" and False):
        rec.require(len(idx) == size, "%s: %d nodes instead of %d", what, len(idx), size)
    if mode == "explicit":
        rec.require(np.all(cw != 0), "%s: zero weight kept", what)
    full = np.zeros(n)
    np.add.at(full, idx, cw)
    return full, tol, rank_hi


@register
class CoM(PTest):
    """Recombination of weighted data in two JIT modes: non-negative weights summing to
    one, preserved means of the test functions, at most rank many positive weights, none on
    zero-weighted rows, no repeated row with positive weight, documented sizes, and the
    same measure in both modes; non-trivial: some positively weighted row was removed."""

    prop, name = "C10", "jit"
    configs, examples = 10, 14

    def config(self, r, i):
        n, d = r.choice([(12, 2), (9, 1), (20, 3), (7, 2), (33, 2), (4, 2), (3, 3), (16, 1), (27, 4), (50, 2), (6, 5), (140, 2), (5, 5)])
        return {
            "s": ["Caratheodory", "Tree"][i % 2], "n": n, "d": d,
            "tf": r.choice([None, None, "quad", "trig"]),
            "rcond": r.choice([None, None, None, -1.0, 1e-5]),
            "trf": r.choice([2, 2, 3, 4, 5]),
        }

    def case(self, draw, cfg):
        return {
            "x": draw_points(draw, cfg["n"], cfg["d"], STY, (0.3, 1.0)),
            "w": draw_weights(draw, cfg["n"], WST),
        }

    def check(self, cfg, case, rec):
        from coreax import Data

        x, w = points(case["x"]), weights(case["w"])
        data = Data(jnp_array(x), jnp_array(w))
        full = []
        for mode in ("implicit-explicit", "implicit"):
            idx, cw = map(np.asarray, run(build(cfg, mode), data))
            f, tol, rank = judge(rec, cfg, x, w, idx, cw.astype(float), mode)
            full.append(f)
        rec.close(full[0], full[1], "measure of implicit-explicit and implicit mode", rtol=0, atol=tol)
        rec.tag(cfg["s"], cfg["tf"] or "identity")
        if np.any(w == 0):
            rec.tag("zero weights")
        rec.mark(((full[0] > tol) & (w > 0)).sum() < (w > 0).sum())


@register
class Explicit(PTest):
    """The explicit mode (not JIT compatible) returns exactly the non-zero part of the
    implicit measure, and is refused under JIT; non-trivial: as above."""

    prop, name = "C10", "explicit"
    configs, examples = 3, 4

    def config(self, r, i):
        return CoM.config(self, r, i)

    def case(self, draw, cfg):
        wst = draw(st.sampled_from([WST, ("tiny",), ("tiny", "spread")]))
        return dict(CoM.case(self, draw, cfg), w=draw_weights(draw, cfg["n"], wst))

    def check(self, cfg, case, rec):
        from coreax import Data

        x, w = points(case["x"]), weights(case["w"])
        data = Data(jnp_array(x), jnp_array(w))
        out, _ = build(cfg, "explicit").reduce(data)
        idx, cw = np.asarray(out.unweighted_indices), np.asarray(out.points.weights, dtype=float)
        full, tol, _ = judge(rec, cfg, x, w, idx, cw, "explicit")
        i2, c2 = map(np.asarray, run(build(cfg, "implicit"), data))
        other = np.zeros(len(x))
        np.add.at(other, i2, c2)
        rec.close(full, other, "measure of explicit and implicit mode", rtol=0, atol=tol)
        # the same computation up to the choice of nodes: nothing but zeros is dropped, so
        # the supports agree far more closely than the tolerance above
        out2, _ = build(cfg, "implicit").reduce(data)
        i2, c2 = np.asarray(out2.unweighted_indices), np.asarray(out2.points.weights, dtype=float)
        eps = TOL.pick(1.2e-7, 2.3e-16)
        gone = sorted(set(i2[c2 > 40 * eps].tolist()) - set(idx.tolist()))
        rec.require(not gone, "explicit mode dropped rows %s of non-zero weight %s", gone, c2)
        rec.tag("small weight kept" if np.any((cw > 0) & (cw < 1e-3)) else "no small weight")
        try:
            run(build(cfg, "explicit"), data)
            refused = False
        except ValueError:
            refused = True
        rec.require(refused, "explicit mode accepted under JIT")
        rec.tag(cfg["s"])
        rec.mark(((full > tol) & (w > 0)).sum() < (w > 0).sum())


@register
class Idempotent(PTest):
    """Recombining supervised data acts on the features only and returns the same measure
    as for plain data; recombining a recombined measure keeps the centre of mass;
    non-trivial: always."""

    prop, name = "C10", "again"
    configs, examples = 3, 10

    def config(self, r, i):
        return CoM.config(self, r, i)

    def case(self, draw, cfg):
        return dict(CoM.case(self, draw, cfg), y=draw(st.integers(0, 10**6)))

    def check(self, cfg, case, rec):
        from coreax import Data, SupervisedData

        x, w = points(case["x"]), weights(case["w"])
        y = np.random.default_rng(case["y"]).normal(size=(len(x), 2))
        s = build(cfg, "implicit")
        idx, cw = map(np.asarray, run(s, SupervisedData(jnp_array(x), jnp_array(y), jnp_array(w))))
        full, tol, _ = judge(rec, cfg, x, w, idx, cw.astype(float), "implicit")
        i2, c2 = map(np.asarray, run(s, Data(jnp_array(x), jnp_array(w))))
        other = np.zeros(len(x))
        np.add.at(other, i2, c2)
        rec.close(full, other, "measure with and without responses", rtol=0, atol=tol)
        w3 = np.where(full > tol, full, 0).astype(np.float32).astype(float)
        i3, c3 = map(np.asarray, run(s, Data(jnp_array(x), jnp_array(w3))))
        judge(rec, cfg, x, w3, i3, c3.astype(float), "implicit")
        rec.mark()
