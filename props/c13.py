"""C13 kernel derivatives equal the derivatives of the documented kernel."""

import equinox as eqx
import numpy as np

from props import ref
from props.c12 import SHAPES, domain, draw_pair, has, kernel_cfg, leaves, mag_gram, pair
from vp.core import TOL, PTest, jnp_array, register

NORM_BASED = ("Exponential", "Matern", "Periodic", "LocallyPeriodic")


def usable(k, x, y):
    """Mask of pairs (i, j) at which k is documented to be differentiable."""
    n, m = len(x), len(y)
    ok = np.ones((n, m), dtype=bool)
    diff = x[:, None, :] - y[None, :, :]
    if any(has(k, nm) for nm in NORM_BASED):
        ok &= np.sqrt((diff**2).sum(-1)) > 0.05
    if has(k, "Laplacian"):
        ok &= np.abs(diff).min(-1) > 1e-3
    return ok


def scaled_periodic(k):
    """Known finding: the mixed divergence of such a kernel is wrong (see DESIGN.md)."""
    if k["k"] == "Periodic":
        return k["os"] != 1
    if k["k"] == "LocallyPeriodic":
        return k["pos"] != 1
    return any(scaled_periodic(k[c]) for c in ("a", "b") if c in k)


def unit_periodic(k):
    for c in ("a", "b"):
        if c in k:
            unit_periodic(k[c])
    if k["k"] == "Periodic":
        k["os"] = 1.0
    if k["k"] == "LocallyPeriodic":
        k["pos"] = 1.0


METHODS = ("grad_x", "grad_y", "divergence_x_grad_y")


@eqx.filter_jit
def _all(K, xs, ys):
    return {
        nm: (
            getattr(K, nm)(xs, ys),
            getattr(K, nm + "_elementwise")(xs[0], ys[0]),
            getattr(K, nm)(xs[-1], ys[-1]),
        )
        for nm in METHODS
    }


@register
class Derivatives(PTest):
    """Gradients and mixed divergence of (composite) kernels against complex-step
    differentiation of the documented formula, at every pair where the kernel is
    documented differentiable; non-trivial: some pair with a non-zero derivative of the highest order checked."""

    prop, name = "C13", "derivatives"
    configs, examples = 36, 14

    def config(self, r, i):
        cfg = kernel_cfg(r, i)
        if r.random() < 0.7:
            unit_periodic(cfg["k"])
        return cfg

    def case(self, draw, cfg):
        return draw_pair(draw, cfg)

    def check(self, cfg, case, rec):
        k = cfg["k"]
        x, y = pair(cfg, case)
        ok = usable(k, x, y)
        if cfg.get("all_pairs"):  # only set by known findings
            ok[:] = True
        K = ref.build(k)
        xs, ys = jnp_array(x), jnp_array(y)
        n, m, d = len(x), len(y), cfg["d"]
        mag = mag_gram(k, x, y) * (1 + np.max(np.abs(x)) + np.max(np.abs(y)))
        with np.errstate(all="ignore"):
            want = {
                "grad_x": ref.grad_ref(k, x, y, "x"),
                "grad_y": ref.grad_ref(k, x, y, "y"),
                "divergence_x_grad_y": ref.div_ref(k, x, y),
            }
        if scaled_periodic(k) and not cfg.get("all_scales"):
            del want["divergence_x_grad_y"]
        if cfg.get("only"):
            want = {cfg["only"]: want[cfg["only"]]}
        out = _all(K, xs, ys)
        for nm, w in want.items():
            got = np.asarray(out[nm][0])
            rec.require(
                got.shape == w.shape, "%s has shape %s, expected %s", nm, got.shape, w.shape
            )
            sc = max(float(np.max(np.abs(w[ok]))) if ok.any() else 0.0, mag)
            if nm.startswith("div"):
                sc = max(sc, mag * (1 + np.max(np.abs(x)) + np.max(np.abs(y))))
            rtol = TOL.pick(1e-3, 1e-8) if nm.startswith("div") else TOL.pick(3e-4, 1e-9)
            rec.close(got[ok], w[ok], f"{nm} vs true derivative", rtol=rtol, scale=sc)
            if ok[0, 0]:
                e = np.asarray(out[nm][1])
                rec.close(e, w[0, 0], f"{nm} elementwise", rtol=rtol, scale=sc)
            if ok[-1, -1]:
                e = np.asarray(out[nm][2])
                rec.close(e, w[-1:, -1:], f"{nm} vector-vector", rtol=rtol, scale=sc)
            if d == 1 and ok[0, 0] and case["tie"] and case["x"]["style"] == "lattice":
                e = np.asarray(getattr(K, nm)(float(x[0, 0]), float(y[0, 0])))
                rec.close(e, w[:1, :1], f"{nm} scalar-scalar", rtol=rtol, scale=sc)
        rec.tag(*leaves(k), "composite" if "a" in k else "base")
        if (~ok).any():
            rec.tag("has-nondifferentiable-pair")
        if ((x[:, None] - y[None]) ** 2).sum(-1).min() == 0:
            rec.tag("coincident-pair")
        rec.mark(ok.any() and np.max(np.abs(w[ok])) > 1e-6)
