"""
Independent reference models (numpy, float64, complex-step capable).

Nothing here imports coreax except the builders that construct the object under test
from the same JSON description that the reference is evaluated from.
"""

from __future__ import annotations

import math

import numpy as np

# ------------------------------------------------------------------ kernel descriptions

BASE = (
    "Linear",
    "Polynomial",
    "Exponential",
    "Laplacian",
    "SquaredExponential",
    "PCIMQ",
    "RationalQuadratic",
    "Matern",
    "Periodic",
    "LocallyPeriodic",
    "Poisson",
)
# Stationary kernels with constant diagonal, usable with any dimension
STATIONARY = (
    "Exponential",
    "Laplacian",
    "SquaredExponential",
    "PCIMQ",
    "RationalQuadratic",
    "Matern",
)
SMOOTH = ("SquaredExponential", "PCIMQ", "RationalQuadratic")


def rnd(r, lo, hi):
    """A float32-representable parameter, log-uniform."""
    v = math.exp(r.uniform(math.log(lo), math.log(hi)))
    return float(np.float32(round(v, 3)))


def random_base(r, names=STATIONARY, d=2, i=None, wide=False):
    name = names[i % len(names)] if i is not None else r.choice(list(names))
    ls = rnd(r, 0.5, 3.0) if not wide else rnd(r, 0.3, 5.0)
    os_ = rnd(r, 0.4, 3.0)
    k = {"k": name}
    if name == "Linear":
        k.update(os=os_, c=r.choice([0.0, rnd(r, 0.1, 2.0)]))
    elif name == "Polynomial":
        k.update(os=os_, c=r.choice([0.0, rnd(r, 0.1, 2.0)]), p=r.choice([2, 3, 4]))
    elif name in ("Exponential", "Laplacian", "SquaredExponential", "PCIMQ"):
        k.update(ls=ls, os=os_)
    elif name == "RationalQuadratic":
        k.update(ls=ls, os=os_, al=rnd(r, 0.4, 3.0))
    elif name == "Matern":
        k.update(ls=ls, os=os_, p=r.choice([0, 1, 2, 3]))
    elif name == "Periodic":
        k.update(ls=rnd(r, 0.8, 3.0), os=os_, per=rnd(r, 1.0, 4.0))
    elif name == "LocallyPeriodic":
        k.update(
            pls=rnd(r, 0.8, 3.0), pos=os_, per=rnd(r, 1.0, 4.0), ls=ls, os=rnd(r, 0.4, 3.0)
        )
    elif name == "Poisson":
        k.update(idx=rnd(r, 0.1, 0.8), os=os_)
    else:
        raise AssertionError(name)
    return k


def random_kernel(r, names=STATIONARY, d=2, i=None, depth=1, pcomp=0.5):
    """A possibly composite kernel description."""
    if depth <= 0 or r.random() > pcomp:
        return random_base(r, names, d, i)
    op = r.choice(["add", "mul", "pow", "addc", "mulc", "raddc", "rmulc", "sq"])
    a = random_kernel(r, names, d, i, depth - 1, pcomp)
    if op in ("add", "mul"):
        b = random_kernel(r, names, d, None, depth - 1, pcomp)
        return {"k": op, "a": a, "b": b}
    if op == "sq":  # product of a kernel with itself
        return {"k": "mul", "a": a, "b": dict(a)}
    if op == "pow":
        return {"k": "pow", "a": a, "p": r.choice([1, 2, 3])}
    return {"k": op, "a": a, "c": r.choice([0.5, 2, 1.5, 3])}


def build(k):
    """Build the coreax kernel for a description."""
    import coreax.kernels as ck

    n = k["k"]
    if n == "Linear":
        return ck.LinearKernel(output_scale=k["os"], constant=k["c"])
    if n == "Polynomial":
        return ck.PolynomialKernel(output_scale=k["os"], constant=k["c"], degree=k["p"])
    if n in ("Exponential", "Laplacian", "SquaredExponential", "PCIMQ"):
        return getattr(ck, n + "Kernel")(length_scale=k["ls"], output_scale=k["os"])
    if n == "RationalQuadratic":
        return ck.RationalQuadraticKernel(
            length_scale=k["ls"], output_scale=k["os"], relative_weighting=k["al"]
        )
    if n == "Matern":
        return ck.MaternKernel(length_scale=k["ls"], output_scale=k["os"], degree=k["p"])
    if n == "Periodic":
        return ck.PeriodicKernel(
            length_scale=k["ls"], output_scale=k["os"], periodicity=k["per"]
        )
    if n == "LocallyPeriodic":
        return ck.LocallyPeriodicKernel(
            periodic_length_scale=k["pls"],
            periodic_output_scale=k["pos"],
            periodicity=k["per"],
            squared_exponential_length_scale=k["ls"],
            squared_exponential_output_scale=k["os"],
        )
    if n == "Poisson":
        return ck.PoissonKernel(index=k["idx"], output_scale=k["os"])
    if n == "add":
        return build(k["a"]) + build(k["b"])
    if n == "mul":
        return build(k["a"]) * build(k["b"])
    if n == "pow":
        return build(k["a"]) ** k["p"]
    if n == "addc":
        return build(k["a"]) + k["c"]
    if n == "raddc":
        return k["c"] + build(k["a"])
    if n == "mulc":
        return build(k["a"]) * k["c"]
    if n == "rmulc":
        return k["c"] * build(k["a"])
    if n == "stein":
        return ck.SteinKernel(build(k["a"]), score_function=build_score(k["score"]))
    raise AssertionError(n)


# ------------------------------------------------------------------ scores
# {"s": "gauss", "mu": m, "prec": p}: score(x) = -p (x - m), elementwise
# {"s": "student", "nu": v}: score(x) = -(v+1) x / (v + x^2), elementwise (positive and
#  negative diagonal curvature -> exercises the Laplace correction)


def random_score(r):
    if r.random() < 0.5:
        return {
            "s": "gauss",
            "mu": float(np.float32(round(r.uniform(-1, 1), 3))),
            "prec": rnd(r, 0.3, 2.0),
        }
    return {"s": "student", "nu": rnd(r, 0.7, 4.0)}


_SCORES: dict = {}


def build_score(s):
    """The score as a callable; one object per description (so that jit caches hit)."""
    key = (s["s"], s.get("mu"), s.get("prec"), s.get("nu"))
    if key not in _SCORES:
        _SCORES[key] = _build_score(s)
    return _SCORES[key]


def _build_score(s):
    import jax.numpy as jnp

    if s["s"] == "gauss":
        return lambda x: -s["prec"] * (jnp.asarray(x) - s["mu"])
    nu = s["nu"]
    return lambda x: -(nu + 1) * jnp.asarray(x) / (nu + jnp.asarray(x) ** 2)


def score_ref(s, x):
    if s["s"] == "gauss":
        return -s["prec"] * (x - s["mu"])
    nu = s["nu"]
    return -(nu + 1) * x / (nu + x**2)


def score_div_pos(s, x):
    """Sum over coordinates of the positive part of d score_j / d x_j."""
    if s["s"] == "gauss":
        return np.zeros(len(x))
    nu = s["nu"]
    dd = -(nu + 1) * (nu - x**2) / (nu + x**2) ** 2
    return np.clip(dd, 0, None).sum(1)


# ------------------------------------------------------------------ kernel references


def _cabs(z):
    z = np.asarray(z)
    if np.iscomplexobj(z):
        return np.where(z.real < 0, -z, z)
    return np.abs(z)


def kval(k, x, y):
    """Reference k(x, y) for broadcastable (..., d) arrays; complex-step capable."""
    n = k["k"]
    if n in ("add", "mul", "pow", "addc", "raddc", "mulc", "rmulc"):
        a = kval(k["a"], x, y)
        if n == "add":
            return a + kval(k["b"], x, y)
        if n == "mul":
            return a * kval(k["b"], x, y)
        if n == "pow":
            return a ** k["p"]
        if n in ("addc", "raddc"):
            return a + k["c"]
        return a * k["c"]
    if n == "stein":
        return stein_val(k["a"], k["score"], x, y)
    if n == "Linear":
        return k["os"] * (x * y).sum(-1) + k["c"]
    if n == "Polynomial":
        return k["os"] * ((x * y).sum(-1) + k["c"]) ** k["p"]
    diff = x - y
    sq = (diff * diff).sum(-1)
    if n == "SquaredExponential":
        return k["os"] * np.exp(-sq / (2 * k["ls"] ** 2))
    if n == "PCIMQ":
        return k["os"] / np.sqrt(1 + sq / (2 * k["ls"] ** 2))
    if n == "RationalQuadratic":
        return k["os"] * (1 + sq / (2 * k["al"] * k["ls"] ** 2)) ** (-k["al"])
    if n == "Laplacian":
        return k["os"] * np.exp(-_cabs(diff).sum(-1) / (2 * k["ls"] ** 2))
    norm = np.sqrt(sq)
    if n == "Exponential":
        return k["os"] * np.exp(-norm / (2 * k["ls"] ** 2))
    if n == "Matern":
        p = k["p"]
        f = math.factorial
        u = math.sqrt(2 * p + 1) * norm / k["ls"]
        tot = 0.0
        for i in range(p + 1):
            tot = tot + f(p + i) / (f(i) * f(p - i)) * (2 * u) ** (p - i)
        return k["os"] ** 2 * np.exp(-u) * f(p) / f(2 * p) * tot
    if n == "Periodic":
        return k["os"] * np.exp(-2 * np.sin(np.pi * norm / k["per"]) ** 2 / k["ls"] ** 2)
    if n == "LocallyPeriodic":
        return (
            k["pos"]
            * np.exp(-2 * np.sin(np.pi * norm / k["per"]) ** 2 / k["pls"] ** 2)
            * k["os"]
            * np.exp(-sq / (2 * k["ls"] ** 2))
        )
    if n == "Poisson":
        return k["os"] / (1 - 2 * k["idx"] * np.cos(norm) + k["idx"] ** 2)
    raise AssertionError(n)


def gram(k, x, y):
    """Reference kernel matrix (n, m)."""
    return kval(k, x[:, None, :], y[None, :, :])


def diag(k, x):
    return kval(k, x, x)


def is_stein(k):
    return k["k"] == "stein"


_H = 1e-30


def grad_ref(k, x, y, wrt):
    """(n, m, d) gradient by the complex-step method."""
    n, m, d = len(x), len(y), x.shape[1]
    out = np.zeros((n, m, d))
    for j in range(d):
        e = np.zeros(d, dtype=complex)
        e[j] = 1j * _H
        if wrt == "x":
            v = kval(k, x[:, None, :] + e, y[None, :, :].astype(complex))
        else:
            v = kval(k, x[:, None, :].astype(complex), y[None, :, :] + e)
        out[..., j] = v.imag / _H
    return out


def div_ref(k, x, y, delta=2e-4):
    """(n, m) sum_j d^2 k / dx_j dy_j: complex step in y, 4th-order difference in x."""
    n, m, d = len(x), len(y), x.shape[1]
    out = np.zeros((n, m))
    for j in range(d):
        ey = np.zeros(d, dtype=complex)
        ey[j] = 1j * _H
        ex = np.zeros(d)
        ex[j] = delta

        def g(c):
            return kval(k, x[:, None, :] + c * ex, y[None, :, :] + ey).imag / _H

        out += (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * delta)
    return out


def stein_val(a, score, x, y):
    """Reference Stein kernel on broadcastable (..., d) real arrays (smooth base)."""
    shape = np.broadcast_shapes(x.shape, y.shape)
    xb = np.broadcast_to(x, shape).astype(float)
    yb = np.broadcast_to(y, shape).astype(float)
    d = shape[-1]
    sx, sy = score_ref(score, xb), score_ref(score, yb)
    kv = kval(a, xb, yb)
    gx = np.zeros(shape)
    gy = np.zeros(shape)
    dv = np.zeros(shape[:-1])
    delta = 2e-4
    for j in range(d):
        e = np.zeros(d, dtype=complex)
        e[j] = 1j * _H
        gx[..., j] = kval(a, xb + e, yb.astype(complex)).imag / _H
        gy[..., j] = kval(a, xb.astype(complex), yb + e).imag / _H
        ex = np.zeros(d)
        ex[j] = delta

        def g(c):
            return kval(a, xb + c * ex, yb + e).imag / _H

        dv += (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * delta)
    return dv + (gx * sy).sum(-1) + (gy * sx).sum(-1) + kv * (sx * sy).sum(-1)


# ------------------------------------------------------------------ discrepancies


def norm_w(w):
    w = np.asarray(w, dtype=float)
    return w / w.sum()


def mmd2(k, x, wx, y, wy):
    wx, wy = norm_w(wx), norm_w(wy)
    return (
        wx @ gram(k, x, x) @ wx + wy @ gram(k, y, y) @ wy - 2 * wx @ gram(k, x, y) @ wy
    )


# ------------------------------------------------------------------ Stein with any score


def radial(k, s):
    """f, f', f'' of a smooth radial base kernel k = f(|x - y|^2)."""
    n = k["k"]
    if n == "SquaredExponential":
        a = 1 / (2 * k["ls"] ** 2)
        f = k["os"] * np.exp(-a * s)
        return f, -a * f, a * a * f
    if n == "PCIMQ":
        a, p = 1 / (2 * k["ls"] ** 2), 0.5
    elif n == "RationalQuadratic":
        a, p = 1 / (2 * k["al"] * k["ls"] ** 2), k["al"]
    else:
        raise AssertionError(n)
    b = 1 + a * s
    return (
        k["os"] * b**-p,
        -k["os"] * p * a * b ** (-p - 1),
        k["os"] * p * (p + 1) * a * a * b ** (-p - 2),
    )


def stein_gram(k, x, y, sx, sy):
    """Stein kernel matrix of a smooth radial base kernel, given the score values."""
    diff = x[:, None, :] - y[None, :, :]
    s = (diff * diff).sum(-1)
    f, f1, f2 = radial(k, s)
    gx = 2 * f1[..., None] * diff
    div = -4 * f2 * s - 2 * x.shape[1] * f1
    return (
        div
        + (gx * sy[None, :, :]).sum(-1)
        - (gx * sx[:, None, :]).sum(-1)
        + f * (sx @ sy.T)
    )


def stein_mag(k, x, y, sx, sy):
    """Magnitude of the terms of the Stein kernel (for rounding tolerances)."""
    diff = x[:, None, :] - y[None, :, :]
    s = (diff * diff).sum(-1)
    f, f1, f2 = radial(k, s)
    gx = np.abs(2 * f1[..., None] * diff)
    return float(
        np.max(
            np.abs(4 * f2 * s)
            + 2 * x.shape[1] * np.abs(f1)
            + (gx * np.abs(sy)[None]).sum(-1)
            + (gx * np.abs(sx)[:, None]).sum(-1)
            + f * (np.abs(sx) @ np.abs(sy).T)
        )
    )


def kde_score(data, ls, x):
    """Score of the Gaussian kernel density estimate, and sum_j max(0, d s_j / d x_j)."""
    diff = data[None, :, :] - x[:, None, :]
    e = -(diff * diff).sum(-1) / (2 * ls**2)
    p = np.exp(e - e.max(1, keepdims=True))
    p /= p.sum(1, keepdims=True)
    mean = (p[..., None] * diff).sum(1)
    var = (p[..., None] * diff**2).sum(1) - mean**2
    return mean / ls**2, np.clip(-1 / ls**2 + var / ls**4, 0, None).sum(1)


def scores_at(score, x):
    """(score values, positive Laplace part) for a score description.

    ``{"s": "kde", "data": array, "ls": l}`` in addition to the analytic scores.
    """
    if score["s"] == "kde":
        return kde_score(score["data"], score["ls"], x)
    return score_ref(score, x), score_div_pos(score, x)


def kde_logpdf(data, w, x, bw):
    """Log-density of the Gaussian KDE with scipy's conventions."""
    w = norm_w(w)
    d = data.shape[1]
    if bw is None:  # Scott's rule
        bw = (1 / (w**2).sum()) ** (-1 / (d + 4))
    cov = np.atleast_2d(np.cov(data.T, aweights=w)) * bw**2
    diff = x[:, None, :] - data[None, :, :]
    e = -0.5 * np.einsum("ijk,kl,ijl->ij", diff, np.linalg.inv(cov), diff)
    e = e - 0.5 * np.linalg.slogdet(2 * np.pi * cov)[1]
    top = e.max(1, keepdims=True)
    return top[:, 0] + np.log((w * np.exp(e - top)).sum(1))
