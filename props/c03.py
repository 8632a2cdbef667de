"""C03 kernel herding selects by the herding criterion (greedy, refining, probabilistic)."""

import functools

import equinox as eqx
import numpy as np
from hypothesis import strategies as st

from props import greedy, ref, solv
from vp.core import TOL, PTest, draw_points, draw_weights, jnp_array, points, register, weights


def herding_score(mu):
    return lambda s: mu - s.penalty / s.size


def tol_of(k, gram):
    return TOL.pick(3e-5, 1e-10) * max(1e-3, float(np.abs(gram).max()))


def herding(c, key=0, **kw):
    c = {"prob": False, "temp": 1.0, **c, "s": "KernelHerding", **kw}
    return solv.build(c, key)


NAMES = ref.STATIONARY + ("Linear", "Polynomial")


def conf(r, i):
    c = solv.random_solver(r, "KernelHerding")
    c["prob"] = False
    c["k"] = ref.random_kernel(r, NAMES, c["d"], i, pcomp=0.3)
    return c


@register
class Reduce(PTest):
    """Every point of a deterministic herding reduction maximises (dataset kernel mean) -
    (sum over selected)/(t+1) over the selectable points, in a float64 replay of the
    selection, also when a cached solver state is supplied; non-trivial: at least two
    choices after the first are decided by more than the rounding tolerance."""

    prop, name = "C03", "reduce"
    configs, examples = 10, 14

    def config(self, r, i):
        return conf(r, i)

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, sup=draw(st.integers(0, 3)) == 0)
        case["state"] = draw(st.booleans())
        return case

    def check(self, cfg, case, rec):
        data, x, w, _ = solv.make_data(cfg, case)
        solver = herding(cfg, case["key"])
        if case["state"]:
            _, state = solv.reduce_(herding(cfg, 0, m=1), data)
        else:
            state = None
        out, st_out = solv.reduce_(solver, data, state)
        gram = ref.gram(cfg["k"], x, x)
        mu = gram @ ref.norm_w(w)
        tol = tol_of(cfg["k"], gram)
        rec.close(st_out.gramian_row_mean, mu, "cached kernel mean", atol=tol)
        idx = solv.indices_of(out)
        s = greedy.Stepper(gram, w, cfg["m"], [], cfg["unique"])
        dec = greedy.follow(rec, idx, s, herding_score(mu), tol, "herding")
        rec.tag("unique" if cfg["unique"] else "repeats allowed", "state" if case["state"] else "no state")
        rec.mark(dec >= 2)


@register
class Refine(PTest):
    """Refining any coresubset (under-sized, full, over-sized, arbitrary members) selects
    slot by slot the maximiser of the herding criterion given the other members, and
    refining a full-size coresubset with a stationary kernel never increases the MMD to
    the data; non-trivial: at least two slots are decided by more than the tolerance."""

    prop, name = "C03", "refine"
    configs, examples = 10, 14

    def config(self, r, i):
        c = conf(r, i)
        n, m = c["n"], c["m"]
        c["l0"] = r.choice([m, m, max(1, m - 1), max(1, m // 2), 1, min(n, m + 2)])
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, tiny=True)
        n = cfg["n"]
        if cfg["unique"] or draw(st.booleans()):
            case["init"] = draw(st.permutations(list(range(n))))[: cfg["l0"]]
        else:
            case["init"] = draw(
                st.lists(st.integers(0, n - 1), min_size=cfg["l0"], max_size=cfg["l0"])
            )
        return case

    def check(self, cfg, case, rec):
        import jax.numpy as jnp
        from coreax import Coresubset

        if cfg["l0"] > cfg["m"]:
            case = {**case, "w": {"style": "ones", "n": cfg["n"]}}
        data, x, w, _ = solv.make_data(cfg, case)
        init = Coresubset.build(jnp.asarray(case["init"], dtype=jnp.int32), data)
        out, _ = solv.refine_(herding(cfg, case["key"]), init)
        gram = ref.gram(cfg["k"], x, x)
        p = ref.norm_w(w)
        mu = gram @ p
        tol = tol_of(cfg["k"], gram)
        idx = solv.indices_of(out)
        s = greedy.Stepper(gram, w, cfg["m"], case["init"], cfg["unique"])
        dec = greedy.follow(rec, idx, s, herding_score(mu), tol, "herding refinement")
        rec.tag(f"size {np.sign(cfg['l0'] - cfg['m'])}")
        dg = np.diag(gram)
        if cfg["l0"] == cfg["m"] and np.ptp(dg) < 1e-12 and np.all(w[case["init"]] > 0):

            def mmd2(sel):
                q = np.bincount(sel, minlength=len(x)) / len(sel)
                return (q - p) @ gram @ (q - p)

            a, b = mmd2(case["init"]), mmd2(idx)
            rec.require(b <= a + 4 * tol, "refinement increased MMD^2 from %.9g to %.9g", a, b)
            rec.tag("mmd compared")
        rec.mark(dec >= 2)


@register
class Iterative(PTest):
    """Iterative reduction equals a reduction followed by repeated refinement: each of its
    results is reached from the previous one slot by slot by the herding criterion; with a
    temperature schedule and probabilistic selection, an iteration whose temperature is
    (all but) zero is greedy whatever the temperatures before it; non-trivial: the last two
    iterates differ, or at least two slots are decided."""

    prop, name = "C03", "iterative"
    configs, examples = 4, 12

    def config(self, r, i):
        c = conf(r, i)
        c.update(iters=[2, 1, 5, 4, 3][i % 5], sched=i % 2 == 0)
        return c

    def case(self, draw, cfg):
        case = solv.draw_data(draw, cfg, tiny=True)
        case["sched"] = [draw(st.sampled_from([0.003, 0.1, 10.0])) for _ in range(cfg["iters"])]
        return case

    def check(self, cfg, case, rec):
        data, x, w, _ = solv.make_data(cfg, case)
        # with a schedule the iterations are probabilistic, the last one all but greedy
        solver = herding(cfg, case["key"], prob=cfg["sched"])
        cold = 1e-6

        def run(k):
            temps = case["sched"][:k]
            temps = temps[:-1] + [cold] if k == cfg["iters"] else temps
            sched = jnp_array(np.array(temps)) if cfg["sched"] else None
            return solv.indices_of(solv.iterative_(solver, data, k, sched)[0])

        gram = ref.gram(cfg["k"], x, x)
        mu = gram @ ref.norm_w(w)
        tol = tol_of(cfg["k"], gram) + (60 * cold if cfg["sched"] else 0.0)
        prev = run(cfg["iters"] - 1).tolist() if cfg["iters"] > 1 else []
        idx = run(cfg["iters"])
        s = greedy.Stepper(gram, w, cfg["m"], prev, cfg["unique"])
        dec = greedy.follow(rec, idx, s, herding_score(mu), tol, "last iteration")
        rec.tag(f"iterations {cfg['iters']}", "schedule" if cfg["sched"] else "greedy")
        rec.mark(dec >= 2 or (prev and idx.tolist() != prev))


@functools.lru_cache(maxsize=64)
def sampler(desc, mode, iters, n_keys):
    """vmapped probabilistic herding over many keys, compiled once per configuration."""
    import json

    import jax

    c = json.loads(desc)

    @eqx.filter_jit
    def run(keys, data, init, temps):
        from coreax import Coresubset, Data
        import jax.numpy as jnp

        def one(key):
            solver = herding(c, 0, prob=True)
            solver = eqx.tree_at(lambda s: s.random_key, solver, key)
            if mode == "reduce":
                out, _ = solver.reduce(data)
            elif mode == "refine":
                out, _ = solver.refine(Coresubset(Data(init), data))
            else:
                out, _ = solver.reduce_iterative(
                    data, num_iterations=iters, t_schedule=temps
                )
            return out.unweighted_indices

        return jax.vmap(one)(keys)

    return run


@register
class Law(PTest):
    """Over many random keys, the joint frequencies of the points selected by
    probabilistic herding (reduction, refinement, iterated refinement with a temperature
    schedule) follow the exactly enumerated softmax law of the herding criterion, which
    includes never selecting zero-weighted or already selected points; non-trivial: the
    law is neither degenerate nor uniform."""

    prop, name = "C03", "law"
    configs, examples = 3, 8
    N = 6000

    def config(self, r, i):
        n, m = r.choice([(4, 2), (5, 2), (3, 3), (4, 3)])
        return {
            "n": n,
            "m": m,
            "d": r.choice([1, 2]),
            "k": ref.random_base(r, ref.STATIONARY, 1),
            "unique": r.random() < 0.7,
            "bs": None,
            "un": 1,
            "mode": ["reduce", "iterative", "refine"][i % 3],
            "iters": 2 if m < 3 else 1,
            "sched": r.random() < 0.6,
            "temp": r.choice([0.02, 0.1, 0.3, 1.0]),
            "s": "KernelHerding",
        }

    def case(self, draw, cfg):
        n = cfg["n"]
        return {
            "x": draw_points(draw, n, cfg["d"], ("lattice", "normal", "clusters")),
            "w": draw_weights(draw, n, ("ones", "ints", "floats", "zeros")),
            "key": draw(st.integers(0, 10**6)),
            "init": draw(st.permutations(list(range(n))))[: max(1, cfg["m"] - 1)],
        }

    def check(self, cfg, case, rec):
        import json

        import jax
        import jax.numpy as jnp

        data, x, w, _ = solv.make_data(cfg, case)
        temps = [cfg["temp"]] * cfg["iters"]
        if cfg["sched"]:
            temps = [0.5, 0.05][: cfg["iters"]]
        init = case["init"] if cfg["mode"] == "refine" else []
        # the initial coresubset keeps only selectable points
        run = sampler(json.dumps(cfg, sort_keys=True), cfg["mode"], cfg["iters"], self.N)
        keys = jax.random.split(jax.random.key(case["key"]), self.N)
        rows = run(
            keys,
            data,
            jnp.asarray(case["init"], dtype=jnp.int32),
            jnp_array(temps) if cfg["sched"] else None,
        )
        gram = ref.gram(cfg["k"], x, x)
        mu = gram @ ref.norm_w(w)
        score = herding_score(mu)

        def step(init):
            return greedy.Stepper(gram, w, cfg["m"], init, cfg["unique"])

        passes = cfg["iters"] if cfg["mode"] == "iterative" else 1
        if cfg["mode"] != "iterative":
            temps = [cfg["temp"]]
        law = greedy.softmax_paths([(1.0, step(init))], score, temps[0])
        for k in range(1, passes):
            law = greedy.softmax_paths(
                [(p, step(list(slots))) for slots, p in law.items()], score, temps[k]
            )
        counts = greedy.tally(rows)
        slack = TOL.pick(2e-4, 1e-6)
        greedy.law_test(rec, counts, law, f"probabilistic herding ({cfg['mode']})", slack)
        probs = np.array(list(law.values()))
        rec.tag(cfg["mode"], "schedule" if cfg["sched"] else "fixed temperature")
        if np.any(w == 0):
            rec.tag("zero weights")
        rec.mark(probs.max() < 0.99 and np.ptp(probs) > 1e-3)
