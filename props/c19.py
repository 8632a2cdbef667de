"""C19 data and coreset containers (model-based histories)."""

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import ref
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, weights


@eqx.filter_jit
def metric_of(coreset, metric):
    return coreset.compute_metric(metric)


SHAPES = ((1, 1), (2, 3), (5, 1), (8, 2), (11, 3), (17, 1), (4, 4), (150, 2))


def raises(rec, exc, fn, what):
    try:
        got = fn()
    except exc:
        rec.checks += 1
        return
    except Exception as e:  # another kind of rejection
        rec.require(False, "%s: raised %s instead of %s", what, type(e).__name__, exc)
    rec.require(False, "%s: accepted (%s)", what, type(got).__name__)


class Model:
    """Plain numpy counterpart of Data / SupervisedData."""

    def __init__(self, x, y, w):
        self.x, self.y, self.w = x, y, w

    def take(self, key):
        return Model(self.x[key], None if self.y is None else self.y[key], self.w[key])


def same(rec, data, m, what):
    from coreax import Data, SupervisedData

    rec.require(isinstance(data, Data), "%s: %s", what, type(data).__name__)
    rec.require(
        isinstance(data, SupervisedData) == (m.y is not None), "%s: is a %s", what, type(data).__name__
    )
    rec.require(
        np.array_equal(np.asarray(data.data), m.x), "%s: points %s, expected %s", what, data.data, m.x
    )
    rec.require(tuple(data.shape) == m.x.shape, "%s: shape %s", what, data.shape)
    rec.require(data.dtype == data.data.dtype, "%s: dtype %s", what, data.dtype)
    rec.require(len(data) == len(m.x), "%s: length %d", what, len(data))
    rec.close(data.weights, m.w, what + ": weights", rtol=TOL.pick(4e-6, 1e-13), atol=0)
    import jax.numpy as jnp

    arr = np.asarray(jnp.asarray(data))
    if m.y is not None:
        rec.require(
            np.array_equal(np.asarray(data.supervision), m.y), "%s: responses %s", what, data.supervision
        )
        rec.require(np.array_equal(arr, np.hstack([m.x, m.y])), "%s: as array %s", what, arr)
    else:
        rec.require(np.array_equal(arr, m.x), "%s: as array %s", what, arr)


def draw_weight_arg(draw, n):
    how = draw(st.sampled_from(["none", "scalar", "int", "vector", "vector", "zeros"]))
    if how == "none":
        return {"how": how}
    if how in ("scalar", "int"):
        return {"how": how, "v": draw(st.sampled_from([0.25, 1.0, 3.0]))}
    return {"how": how, "w": draw_weights(draw, n, ("ints", "floats", "spread", "signed", "zeros"))}


def weight_arg(spec, n):
    """(argument, model vector)"""
    if spec["how"] == "none":
        return None, np.ones(n)
    if spec["how"] == "scalar":
        return float(spec["v"]), np.full(n, spec["v"])
    if spec["how"] == "int":
        v = max(1, int(spec["v"]))
        return v, np.full(n, float(v))
    if spec["how"] == "zeros":
        return jnp_array(np.zeros(n)), np.zeros(n)
    w = weights(spec["w"])
    return jnp_array(w), w


def draw_key(draw, n):
    """A JSON-able index expression that keeps at least one row."""
    kind = draw(st.sampled_from(["slice", "ints", "neg", "mask", "step"]))
    if kind == "slice":
        a = draw(st.integers(0, n - 1))
        return {"kind": kind, "a": a, "b": draw(st.integers(a + 1, n))}
    if kind == "step":
        return {"kind": kind, "s": draw(st.sampled_from([-2, -1, 2, 3]))}
    if kind == "mask":
        m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        if not any(m):
            m[draw(st.integers(0, n - 1))] = True
        return {"kind": kind, "m": m}
    lo = -n if kind == "neg" else 0
    return {"kind": kind, "i": draw(st.lists(st.integers(lo, n - 1), min_size=1, max_size=n))}


def key_of(spec):
    k = spec["kind"]
    if k == "slice":
        return slice(spec["a"], spec["b"])
    if k == "step":
        return slice(None, None, spec["s"])
    if k == "mask":
        return np.array(spec["m"])
    return np.array(spec["i"])


def key_len(spec, n):
    return len(np.arange(n)[key_of(spec)])


def draw_ops(draw, n):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(["index", "index", "normalize", "preserve", "as", "jit", "points", "points"]))
        if op == "index":
            key = draw_key(draw, n)
            ops.append({"op": op, "key": key})
            n = key_len(key, n)
        elif op == "points":
            idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n))
            ops.append(
                {
                    "op": op, "idx": idx, "w": draw_weight_arg(draw, len(idx)),
                    "how": draw(st.sampled_from(["init", "build", "build_array"])),
                }
            )
            n = len(idx)
        else:
            ops.append({"op": op})
    return ops


@register
class History(PTest):
    """Sequences of container operations (construction from every admissible shape,
    indexing, normalisation, casting, passing through a compiled function, materialising
    coresubsets) agree with a numpy model of the triples (x, y, w); non-trivial: at least
    two operations and more than one row at some stage."""

    prop, name = "C19", "history"
    configs, examples = 6, 24

    def config(self, r, i):
        n, d = SHAPES[i % len(SHAPES)] if r.random() < 0.7 else (r.randint(1, 20), r.randint(1, 4))
        return {"n": n, "d": d, "p": r.choice([0, 0, 1, 2]), "int": r.random() < 0.2}

    def case(self, draw, cfg):
        n, d = cfg["n"], cfg["d"]
        c = {
            "x": draw_points(draw, n, d, ("lattice",) if cfg["int"] else ("lattice", "normal", "dups")),
            "form": draw(st.sampled_from(["2d", "natural", "numpy"])),
            "w": draw_weight_arg(draw, n),
            "ops": draw_ops(draw, n),
        }
        if cfg["p"]:
            c["y"] = draw_points(draw, n, cfg["p"], ("lattice", "normal"))
        return c

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset, Data, SupervisedData
        from coreax.data import as_data, as_supervised_data

        n, d = cfg["n"], cfg["d"]
        x = points(case["x"])
        if cfg["int"]:
            x = (2 * x).astype(np.int32)
        arg = jnp.asarray(x) if cfg["int"] else jnp_array(x)
        if case["form"] == "natural" and d == 1:
            # vectors are columns, scalars single points
            arg = arg[0, 0] if n == 1 else arg[:, 0]
        if case["form"] == "numpy":
            arg = np.asarray(arg)
        w_arg, w = weight_arg(case["w"], n)
        y = None
        if cfg["p"]:
            y = points(case["y"])
            y_arg = jnp_array(y)
            if case["form"] == "natural" and cfg["p"] == 1:
                y_arg = y_arg[0, 0] if n == 1 else y_arg[:, 0]
            data = SupervisedData(arg, y_arg, w_arg) if w_arg is not None else as_supervised_data((arg, y_arg))
        else:
            data = Data(arg, w_arg) if w_arg is not None else as_data(arg)
        m = Model(x, y, w)
        same(rec, data, m, "construction from shape %s" % (np.shape(arg),))
        first, first_model = data, m
        for k, op in enumerate(case["ops"]):
            what = "step %d %s" % (k, op)
            if op["op"] == "index":
                key = key_of(op["key"])
                jkey = jnp.asarray(key) if isinstance(key, np.ndarray) and k % 2 else key
                data, m = data[jkey], m.take(key)
            elif op["op"] in ("normalize", "preserve"):
                total = m.w.sum()
                if total == 0 and op["op"] == "normalize":
                    continue  # undefined
                if total and np.abs(m.w).sum() > 8 * abs(total):
                    continue  # the total of signed weights cancels: ill-conditioned
                data = data.normalize(preserve_zeros=op["op"] == "preserve")
                m = Model(m.x, m.y, m.w / total if total else m.w)
                rec.close(np.sum(np.asarray(data.weights, dtype=float)), 1.0 if total else 0.0, what + ": sum")
            elif op["op"] == "as":
                other = as_data(data) if m.y is None else as_supervised_data(data)
                rec.require(other is data, "%s: casting made a different object", what)
            elif op["op"] == "jit":
                data = eqx.filter_jit(lambda z: z)(data)
            else:
                idx = np.array(op["idx"])
                wa, wm = weight_arg(op["w"], len(idx))
                if op["how"] == "build_array":
                    cs = Coresubset.build(jnp.asarray(idx), data)
                    wm = np.ones(len(idx))
                else:
                    nodes = Data(jnp.asarray(idx), wa)
                    cs = Coresubset(nodes, data) if op["how"] == "init" else Coresubset.build(nodes, data)
                rec.require(len(cs) == len(idx), "%s: length %d", what, len(cs))
                rec.require(
                    np.array_equal(np.asarray(cs.unweighted_indices), idx), "%s: indices %s", what, cs.unweighted_indices
                )
                same(rec, cs.pre_coreset_data, m, what + " original data")
                data = cs.points
                m = m.take(idx)
                m.w = wm
            same(rec, data, m, what)
        same(rec, first, first_model, "the original object after the history")
        rec.tag(*[o["op"] for o in case["ops"]], case["form"], "w:" + case["w"]["how"])
        rec.mark(len(case["ops"]) > 1 and n > 1)


@register
class Reject(PTest):
    """Mismatched lengths, raw arrays in constructors and coresets larger than their data
    are rejected, and the neighbouring admissible sizes accepted; non-trivial: always."""

    prop, name = "C19", "reject"
    configs, examples = 3, 15

    def config(self, r, i):
        return {"n": r.choice([2, 3, 5, 9]), "d": r.choice([1, 2, 3])}

    def case(self, draw, cfg):
        n = cfg["n"]
        return {
            "x": draw_points(draw, n, cfg["d"], ("lattice", "normal")),
            "off": draw(st.sampled_from([-1, 1, 2, n])),
            "p": draw(st.integers(1, 3)),
            "m": draw(st.integers(1, n)),
        }

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset, Data, PseudoCoreset, SupervisedData

        n, m = cfg["n"], case["m"]
        x = jnp_array(points(case["x"]))
        other = n + case["off"]
        if other >= 1 and other != 1:
            raises(rec, (ValueError, TypeError), lambda: Data(x, jnp.ones(other)), f"{other} weights for {n} points")
        if other >= 1:
            raises(
                rec, ValueError, lambda: SupervisedData(x, jnp.ones((other, case["p"]))),
                f"{other} responses for {n} points",
            )
        y = jnp.ones((n, case["p"]))
        data, sup = Data(x), SupervisedData(x, y)
        for cls in (Coresubset, PseudoCoreset):
            nodes = (lambda k: jnp.arange(k) % n) if cls is Coresubset else (lambda k: jnp.ones((k, cfg["d"])))
            name = cls.__name__
            raises(rec, TypeError, lambda: cls(nodes(m), data), f"{name} with raw nodes")
            raises(rec, TypeError, lambda: cls(Data(nodes(m)), x), f"{name} with raw data")
            raises(rec, TypeError, lambda: cls(Data(nodes(m)), (x, y)), f"{name} with a tuple")
            big = n + abs(case["off"])
            for orig in (data, sup):
                raises(rec, ValueError, lambda: cls(Data(nodes(big)), orig), f"{name} of {big} out of {n}")
                raises(rec, ValueError, lambda: cls.build(nodes(big), orig), f"{name}.build of {big} out of {n}")
                for size in (m, n):
                    rec.require(len(cls(Data(nodes(size)), orig)) == size, "%s of %d rows", name, size)
        rec.mark()


@register
class Build(PTest):
    """Coresubset.build and PseudoCoreset.build cast arrays and tuples as documented; the
    points, weights and metric are those of the equivalent explicit construction, the
    metric agreeing with the float64 reference; non-trivial: the metric is positive."""

    prop, name = "C19", "build"
    configs, examples = 3, 12

    def config(self, r, i):
        n, d = r.choice([(6, 2), (9, 1), (13, 3)])
        return {
            "n": n, "d": d, "m": r.randint(1, n),
            "k": ref.random_base(r, ref.STATIONARY, d),
        }

    def case(self, draw, cfg):
        n, m = cfg["n"], cfg["m"]
        return {
            "x": draw_points(draw, n, cfg["d"], ("lattice", "normal", "dups")),
            "w": draw_weights(draw, n),
            "nodes": draw_points(draw, m, cfg["d"], ("lattice", "normal")),
            "idx": draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)),
            "nw": draw_weights(draw, m),
            "y": draw_points(draw, n, 2, ("lattice", "normal")),
        }

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset, Data, PseudoCoreset, SupervisedData
        from coreax.metrics import MMD

        x, w, nodes, idx = points(case["x"]), weights(case["w"]), points(case["nodes"]), np.array(case["idx"])
        nw, y = weights(case["nw"]), points(case["y"])
        jx, jy = jnp_array(x), jnp_array(y)
        ones = np.ones(len(x))
        pm = Model(nodes, None, np.ones(len(nodes)))
        for orig, model in (
            (jx, Model(x, None, ones)),
            ((jx, jy), Model(x, y, ones)),
            (Data(jx, jnp_array(w)), Model(x, None, w)),
            (SupervisedData(jx, jy, jnp_array(w)), Model(x, y, w)),
        ):
            a = Coresubset.build(jnp.asarray(idx), orig)
            b = PseudoCoreset.build(jnp_array(nodes), orig)
            for c in (a, b):
                same(rec, c.pre_coreset_data, model, f"{type(c).__name__}.build original data")
                rec.require(len(c) == cfg["m"], "length %d", len(c))
            rec.require(isinstance(a, Coresubset) and isinstance(b, PseudoCoreset), "type of build")
            want = model.take(idx)
            want.w = np.ones(len(idx))
            same(rec, a.points, want, "Coresubset.build points")
            same(rec, b.points, pm, "PseudoCoreset.build points")
        # metric of weighted coresets of weighted data
        data = Data(jx, jnp_array(w))
        metric = MMD(ref.build(cfg["k"]))
        sub = Coresubset(Data(jnp.asarray(idx), jnp_array(nw)), data)
        pse = PseudoCoreset(Data(jnp_array(nodes), jnp_array(nw)), data)
        for c, z in ((sub, x[idx]), (pse, nodes)):
            want = ref.mmd2(cfg["k"], x, w, z, nw)
            got = float(metric_of(c, metric))
            tol = TOL.pick(3e-5, 1e-12) * (1 + ref.gram(cfg["k"], x, x).max())
            rec.require(abs(got**2 - max(want, 0)) <= tol, "metric %r, expected %r", got, np.sqrt(max(want, 0)))
            rec.mark(want > 10 * tol)
        rec.tag("m=n" if cfg["m"] == cfg["n"] else "m<n")
