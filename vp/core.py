"""Shared machinery: test registry, case generation helpers, failure types."""

from __future__ import annotations

import hashlib
import json
import math
import os
import random

import numpy as np


class Violation(Exception):
    """The code under test broke the property on the current case."""


class Inconclusive(Exception):
    """The case turned out to be outside the property's domain (not counted)."""


TESTS: dict[str, list["PTest"]] = {}


class PTest:
    """
    One executable property check.

    ``config(r, i)`` returns a JSON-able *configuration* (the part of an input that
    costs a JIT compilation: shapes, solver options, kernel); ``case(draw, cfg)`` draws
    the rest of the input with Hypothesis; ``check(cfg, case, rec)`` decides it.
    """

    prop = ""
    name = ""
    configs = 6  # configurations per worker (quick)
    examples = 15  # hypothesis examples per configuration (quick)
    thorough_configs = 6  # multipliers in the thorough tier
    thorough_examples = 2
    case_timeout = 0  # seconds; a case that takes longer is reported (0: none)
    workers = None  # restrict to some workers (None: all)
    modes = ("f32", "x64")

    def config(self, r: random.Random, i: int) -> dict:
        return {}

    def case(self, draw, cfg: dict) -> dict:
        return {}

    def check(self, cfg: dict, case: dict, rec: "Recorder") -> None:
        raise NotImplementedError


def register(cls):
    inst = cls()
    assert inst.prop and inst.name, cls
    TESTS.setdefault(inst.prop, []).append(inst)
    return cls


class Recorder:
    """Collect what a case exercised."""

    def __init__(self) -> None:
        self.tags: set[str] = set()
        self.nontrivial = False
        self.checks = 0

    def tag(self, *names) -> None:
        self.tags.update(str(n) for n in names)

    def mark(self, cond=True) -> None:
        """Declare the case non-trivial (the test's stated rule holds)."""
        if cond:
            self.nontrivial = True

    def require(self, cond, msg, *args) -> None:
        self.checks += 1
        if not bool(cond):
            raise Violation(msg % args if args else msg)

    def close(self, got, want, msg, rtol=None, atol=None, scale=None) -> None:
        """Require ``got`` to agree with the float64 reference ``want``."""
        self.checks += 1
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        if got.shape != want.shape:
            raise Violation(f"{msg}: shape {got.shape} but expected {want.shape}")
        rtol = TOL.rtol if rtol is None else rtol
        if scale is None:
            scale = float(np.max(np.abs(want))) if want.size else 0.0
        atol = TOL.atol if atol is None else atol
        if want.size == 0:
            return
        bad_nan = np.isnan(got) != np.isnan(want)
        if bad_nan.any():
            raise Violation(f"{msg}: NaN mismatch got={_short(got)} want={_short(want)}")
        err = np.nanmax(np.abs(np.where(np.isnan(want), 0, got - want)))
        if not err <= atol + rtol * scale:
            raise Violation(
                f"{msg}: max abs error {err:.6g} > {atol + rtol * scale:.3g}; "
                f"got={_short(got)} want={_short(want)}"
            )


def _short(a, lim=10):
    a = np.ravel(np.asarray(a))
    s = ", ".join(f"{v:.7g}" for v in a[:lim])
    return "[" + s + (", ..." if a.size > lim else "") + "]"


class _Tol:
    x64 = False

    @property
    def rtol(self):
        return 1e-9 if self.x64 else 2e-4

    @property
    def atol(self):
        return 1e-10 if self.x64 else 2e-6

    def pick(self, f32, x64):
        return x64 if self.x64 else f32


TOL = _Tol()


def stable_seed(*parts) -> int:
    h = hashlib.sha256(json.dumps(parts, sort_keys=True).encode()).digest()
    return int.from_bytes(h[:6], "big")


# --------------------------------------------------------------------------------------
# Input generation. All numbers are float32-representable so that the code under test
# (float32 or float64) and the float64 oracle see the same input.
# --------------------------------------------------------------------------------------

STYLES = ("lattice", "normal", "dups", "clusters", "offset", "line", "uniform", "skew")


def draw_points(draw, n, d, styles=STYLES, scales=(0.3, 1.0, 3.0)):
    """Draw a JSON-able description of an ``n x d`` point set."""
    from hypothesis import strategies as st

    style = draw(st.sampled_from(styles))
    if style == "lattice" and n * d <= 80:
        vals = draw(
            st.lists(st.integers(-6, 6), min_size=n * d, max_size=n * d)
        )
        return {"style": "lattice", "n": n, "d": d, "vals": vals}
    return {
        "style": style,
        "n": n,
        "d": d,
        "seed": draw(st.integers(0, 10**6)),
        "scale": draw(st.sampled_from(list(scales))),
    }


def points(spec) -> np.ndarray:
    """Materialise a point-set description as a float64 array (float32 values)."""
    n, d = spec["n"], spec["d"]
    if "vals" in spec:
        return np.array(spec["vals"], dtype=np.float64).reshape(n, d) * 0.5
    rng = np.random.default_rng([spec["seed"], n, d])
    s = spec["scale"]
    style = spec["style"]
    if style == "lattice":
        x = rng.integers(-6, 7, size=(n, d)) * 0.5
    elif style == "normal":
        x = rng.normal(size=(n, d)) * s
    elif style == "uniform":
        x = rng.uniform(-2, 2, size=(n, d)) * s
    elif style == "skew":
        x = rng.exponential(size=(n, d)) ** 1.5 * s
    elif style == "dups":
        base = rng.normal(size=(max(2, n // 2), d)) * s
        x = base[rng.integers(0, len(base), size=n)]
    elif style == "clusters":
        c = rng.normal(size=(3, d)) * 4 * s
        x = c[rng.integers(0, 3, size=n)] + 0.2 * s * rng.normal(size=(n, d))
    elif style == "offset":
        x = rng.normal(size=(n, d)) * s + rng.choice([-1, 1], size=d) * rng.uniform(2, 8)
    elif style == "line":
        x = np.linspace(-1, 1, n)[:, None] * rng.normal(size=(1, d)) * 2 * s
        x = x + rng.normal(size=(1, d))
    else:
        raise AssertionError(style)
    return x.astype(np.float32).astype(np.float64)


WSTYLES = ("ones", "const", "ints", "floats", "spread")


def draw_weights(draw, n, styles=WSTYLES):
    from hypothesis import strategies as st

    style = draw(st.sampled_from(styles))
    if style in ("ones",):
        return {"style": "ones", "n": n}
    if style == "const":
        return {"style": "const", "n": n, "c": draw(st.sampled_from([0.5, 2.0, 7.0]))}
    if n > 80 and style in ("ints", "zeros"):
        lo = int(style == "ints")
        return {"style": "rints", "n": n, "lo": lo, "seed": draw(st.integers(0, 10**6))}
    if style == "ints":
        return {
            "style": "ints",
            "n": n,
            "vals": draw(st.lists(st.integers(1, 6), min_size=n, max_size=n)),
        }
    if style == "zeros":  # at least `keep` positive entries
        keep = max(1, n // 2)
        vals = draw(st.lists(st.integers(0, 4), min_size=n, max_size=n))
        k = 0
        for j in range(n):
            if sum(v > 0 for v in vals) >= keep:
                break
            if vals[j] == 0:
                vals[j] = 1
            k += 1
        return {"style": "ints", "n": n, "vals": vals}
    return {"style": style, "n": n, "seed": draw(st.integers(0, 10**6))}


def weights(spec) -> np.ndarray:
    n = spec["n"]
    if spec["style"] == "ones":
        return np.ones(n)
    if spec["style"] == "const":
        return np.full(n, spec["c"])
    if spec["style"] == "ints":
        return np.array(spec["vals"], dtype=np.float64)
    rng = np.random.default_rng([spec["seed"], n, 77])
    if spec["style"] == "rints":
        w = rng.integers(spec["lo"], 6, size=n) * 1.0
        w[: max(0, n // 2 - int((w > 0).sum()))] = 1.0
        return w
    if spec["style"] == "floats":
        w = rng.uniform(0.1, 2.0, size=n)
    elif spec["style"] == "tiny":  # many orders of magnitude, none of them zero
        w = 10.0 ** rng.uniform(-8, 0, size=n)
    elif spec["style"] == "signed":  # some negative weights, total bounded away from zero
        w = rng.uniform(0.1, 2.0, size=n)
        neg, budget = 0.0, 0.3 * w.sum()
        for j in rng.permutation(n):
            if neg + w[j] <= budget:
                neg += w[j]
                w[j] = -w[j]
        w = w * rng.choice([1.0, 1.0, -1.0])
    else:  # spread over orders of magnitude
        w = 10.0 ** rng.uniform(-2, 1, size=n)
    return w.astype(np.float32).astype(np.float64)


def spread_factor(w) -> float:
    """How much rounding is amplified by normalising (signed) weights; 1 if all have the
    same sign."""
    w = np.asarray(w, dtype=float)
    return float(np.abs(w).sum() / abs(w.sum()))


def jnp_array(a):
    import jax.numpy as jnp

    return jnp.asarray(np.asarray(a), dtype=jnp.float64 if TOL.x64 else jnp.float32)


def scratch_dir() -> str:
    return os.environ["VP_SCRATCH"]


def r_choice(r: random.Random, seq, i: int | None = None):
    """Choose from ``seq``; cycles through it with ``i`` if given (stratification)."""
    seq = list(seq)
    return seq[i % len(seq)] if i is not None else r.choice(seq)


def lg(x):
    return math.log(x)
