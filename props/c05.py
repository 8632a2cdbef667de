"""C05 padding-invariant solvers ignore zero-weighted data and the scale of weights."""

import numpy as np
from hypothesis import strategies as st

from props import c03, c04, greedy, ref, solv
from vp.core import PTest, jnp_array, register


def pad(draw, n):
    k = draw(st.sampled_from([1, 2, 3, 5]))
    return {
        "k": k,
        "where": draw(st.sampled_from(["end", "front", "spread"])),
        "what": draw(st.sampled_from(["zeros", "copies", "far", "central"])),
        "seed": draw(st.integers(0, 10**6)),
        "scale": draw(st.sampled_from([1.0, 0.25, 3.0, 100.0, 1e6, 1e-8, 1e-12])),
    }


def padded(x, w, y, p):
    """Insert zero-weighted rows; returns (x, w, y, position of each original row)."""
    rng = np.random.default_rng(p["seed"])
    k, n = p["k"], len(x)
    if p["what"] == "zeros":
        extra = np.zeros((k, x.shape[1]))
    elif p["what"] == "copies":
        extra = x[rng.integers(0, n, k)]
    elif p["what"] == "far":
        extra = np.full((k, x.shape[1]), 6.0) + np.arange(k)[:, None] * 0.5
    else:
        extra = np.repeat(np.average(x, axis=0, weights=w)[None], k, 0)
    extra = extra.astype(np.float32).astype(np.float64)
    if p["where"] == "end":
        pos = np.arange(n)
    elif p["where"] == "front":
        pos = np.arange(n) + k
    else:
        pos = np.sort(rng.permutation(n + k)[:n])
    mask = np.zeros(n + k, bool)
    mask[pos] = True
    x2 = np.zeros((n + k, x.shape[1]))
    x2[mask], x2[~mask] = x, extra
    w2 = np.zeros(n + k)
    w2[mask] = w * p["scale"]
    y2 = None
    if y is not None:
        y2 = np.zeros((n + k, y.shape[1]))
        y2[mask] = y
    return x2, w2.astype(np.float32).astype(np.float64), y2, pos


class _Base(PTest):
    prop = "C05"

    def case(self, draw, cfg):
        case = solv.draw_data(
            draw, cfg, zeros=False, styles=c04.STY, sup=cfg["sup"], tiny=self.name == "herding"
        )
        case["pad"] = pad(draw, cfg["n"])
        # sizes are part of the compilation: keep them per configuration
        case["pad"]["k"] = cfg["pad"]
        return case

    def both(self, cfg, case, solver):
        from coreax import Data, SupervisedData

        data, x, w, y = solv.make_data(cfg, case)
        x2, w2, y2, pos = padded(x, w, y, case["pad"])
        if y is None:
            data2 = Data(jnp_array(x2), jnp_array(w2))
        else:
            data2 = SupervisedData(jnp_array(x2), jnp_array(y2), jnp_array(w2))
        a, _ = solv.reduce_(solver, data)
        b, _ = solv.reduce_(solver, data2)
        ia, ib = solv.indices_of(a), solv.indices_of(b)
        return x, w, ia, ib, pos, w2

    def judge(self, cfg, case, rec, ia, ib, pos, w2, stepper, score, tol, what):
        p = case["pad"]
        rec.require(
            np.all((ib >= 0) & (ib < len(w2))) and np.all(w2[ib] > 0),
            "%s selected a zero-weighted row: %s",
            what,
            ib,
        )
        back = np.full(len(w2), -1)
        back[pos] = np.arange(len(pos))
        got = back[ib]
        what = (
            f"{what}: zero-weighted padding ({p['what']}, {p['where']}) or weight scale "
            f"{p['scale']}"
        )
        dec = greedy.same_up_to_ties(rec, ia, got, stepper, score, tol, what)
        rec.tag(p["what"], p["where"], f"scale {p['scale']}")
        rec.mark(dec >= 1)


@register
class Herding(_Base):
    """Kernel herding of data with zero-weighted rows inserted anywhere (zeros, copies of
    data, outliers, the data mean) and with rescaled weights selects the same points, up
    to choices tied within rounding; non-trivial: at least one choice before any tie is
    decided by more than the tolerance."""

    name = "herding"
    configs, examples = 8, 14

    def config(self, r, i):
        c = c03.conf(r, i)
        c.update(pad=[1, 3, 2, 5][i % 4], sup=r.random() < 0.25)
        return c

    def check(self, cfg, case, rec):
        x, w, ia, ib, pos, w2 = self.both(cfg, case, c03.herding(cfg, 0))
        gram = ref.gram(cfg["k"], x, x)
        mu = gram @ ref.norm_w(w)
        s = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
        self.judge(
            cfg, case, rec, ia, ib, pos, w2, s, c03.herding_score(mu),
            2 * c03.tol_of(cfg["k"], gram), "kernel herding",
        )


@register
class Stein(_Base):
    """The same for (regularised) Stein thinning with a given score; non-trivial: as
    above."""

    name = "stein"
    configs, examples = 7, 14

    def config(self, r, i):
        c = c04.conf(r, i)
        c.update(pad=[1, 3, 2, 5][i % 4], sup=r.random() < 0.25)
        return c

    def check(self, cfg, case, rec):
        x, w, ia, ib, pos, w2 = self.both(cfg, case, c04.stein(cfg))
        gram, score, tol = c04.criterion(cfg, x, w)
        s = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
        self.judge(cfg, case, rec, ia, ib, pos, w2, s, score, 2 * tol, "Stein thinning")


@register
class Empty(PTest):
    """Supervised and plain data with the same features and weights give the same herding
    selection (responses do not influence an unsupervised solver); non-trivial: always."""

    prop, name = "C05", "responses"
    configs, examples = 3, 10

    def config(self, r, i):
        return c03.conf(r, i)

    def case(self, draw, cfg):
        return solv.draw_data(draw, cfg, sup=True)

    def check(self, cfg, case, rec):
        from coreax import Data

        data, x, w, y = solv.make_data(cfg, case)
        plain = Data(data.data, data.weights)
        s = c03.herding(cfg, 0)
        a = solv.indices_of(solv.reduce_(s, data)[0])
        b = solv.indices_of(solv.reduce_(s, plain)[0])
        gram = ref.gram(cfg["k"], x, x)
        step = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
        score = c03.herding_score(gram @ ref.norm_w(w))
        tol = 2 * c03.tol_of(cfg["k"], gram)
        greedy.same_up_to_ties(rec, b, a, step, score, tol, "with responses")
        rec.mark()
