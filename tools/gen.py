"""Regenerates properties.jsonl and MANIFEST.json from the table below (development aid)."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "coreax/solvers/coresubset.py"
K = ["coreax/kernels/base.py", "coreax/kernels/scalar_valued.py"]

# id: (title, statement, over, quantifier, why tests can't, files, [(mechanism, where)], note)
P = {}


def prop(pid, title, statement, over, quant, why, files, mech, note=""):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(
        title=title, statement=statement, over=over, quant=quant, why=why, files=files,
        mech=mech, note=note,
    )


prop(
    "C01",
    "Every solver returns a valid coresubset of the requested size",
    "Reducing any admissible dataset (plain or supervised, weighted or not) with any of the provided solvers returns a coresubset with exactly the requested number of indices (for recombination: the number its mode documents), each a valid row of the dataset. The coreset points and responses are exactly the dataset rows at those indices, its weights are finite and non-negative, and it refers to the original dataset, which is left unmodified. This holds for every solver configuration, in single and double precision.",
    ["inputs", "configurations"],
    "all datasets (sizes, dimensions, coincident/collinear/clustered points, weights), all solver options, both precisions",
    "The tests use a few fixed Gaussian datasets per solver with distinct points and one precision; sizes that are not powers of two, coincident points, supervised data and x64 are not reached.",
    ["coreax/solvers/coresubset.py", "coreax/solvers/composite.py", "coreax/solvers/recombination.py", "coreax/coreset.py"],
    [("reduce methods of all solvers", "coreax/solvers"), ("points / unweighted_indices", "coreax/coreset.py Coresubset")],
)
prop(
    "C02",
    "Coresubsets requested to be unique never repeat an index",
    "When a solver is asked for unique points (or is inherently non-repeating), the indices of the returned coresubset are pairwise distinct, whether obtained by reduction, iterated reduction, map-reduce, or by refining any initial coresubset (smaller, equal or larger than requested, with or without repeats). Kernel herding and Stein thinning additionally never return a zero-weighted data point.",
    ["inputs", "configurations", "histories"],
    "all datasets including coincident points and exhausted candidates (coreset as large as the data), all solver options, all initial coresubsets",
    "The tests check uniqueness on random distinct points with small coresets; repetition needs coincident points, candidate batches that are exhausted, padded refinements or index collisions with padding.",
    ["coreax/solvers/coresubset.py", "coreax/solvers/composite.py"],
    [("exclusion of selected indices", "_greedy_kernel_selection, GreedyKernelPoints, RPCholesky, KernelThinning")],
)
prop(
    "C03",
    "Kernel herding selects by the herding criterion, greedily or by its softmax",
    "Each point chosen by kernel herding maximises, over the positively weighted and (if unique) unused points, the weighted kernel mean of the dataset minus the sum of kernel values with the other members divided by the resulting coreset size; this holds for reduction, for refinement of any coresubset slot by slot, for every iteration of an iterated reduction, and when a cached state is supplied. Refining a full-size coresubset with a stationary kernel never increases its MMD to the data. In probabilistic mode the points are drawn from the softmax of this criterion divided by the (scheduled) temperature, independently at each step.",
    ["inputs", "configurations", "histories"],
    "all weighted datasets, kernels, block sizes, initial coresubsets, iteration counts, temperatures and random keys",
    "The tests compare with a stored solution or only check that the MMD beats a random sample; a wrong normaliser, stale penalty or mis-weighted mean changes choices only on particular data.",
    [S],
    [("KernelHerding.refine / reduce_iterative", S), ("_greedy_kernel_selection", S)],
)
prop(
    "C04",
    "Stein thinning selects by the documented (regularised) Stein criterion",
    "With a Stein kernel that carries a score function, each point chosen by Stein thinning minimises, over the positively weighted and (if unique) unused points, the Stein kernel diagonal plus twice the sum of Stein kernel values with the other members; when regularised, plus the positive part of the Laplacian of the log-density minus lambda times the step number times the weighted Gaussian-KDE log-density with the configured bandwidth, lambda defaulting to one over the coreset size. This holds for reduction and, slot by slot, for refinement of any coresubset.",
    ["inputs", "configurations", "histories"],
    "all weighted datasets with non-singular covariance, smooth base kernels, score functions, regularisation parameters, bandwidths and initial coresubsets",
    "The tests compare one fixed dataset with a stored solution; sign, step-count, weighting and bandwidth errors only show on other data.",
    [S],
    [("SteinThinning.refine", S), ("_greedy_kernel_selection", S)],
    "Kernels that are not Stein kernels and score_matching overrides are outside the claim (known finding).",
)
prop(
    "C11",
    "Blocked kernel means equal the dense weighted kernel means",
    "The (row, column or overall) mean of a kernel matrix and the row mean of a Gramian equal the dense weighted average of the kernel matrix with normalised weights, whatever block size, unroll setting or axis is used. Zero-weighted rows do not contribute and rescaling the weights changes nothing.",
    ["inputs", "configurations"],
    "all point sets, weights, axes, block sizes (dividing, not dividing, exceeding the data) and unroll settings",
    "The tests sample a few block sizes with default weights on one dataset.",
    ["coreax/kernels/base.py", "coreax/kernels/util.py"],
    [("compute_mean / gramian_row_mean", "coreax/kernels/base.py"), ("_block_data_convert", "coreax/kernels/util.py")],
)
prop(
    "C12",
    "Kernel evaluation agrees with the documented formulas and kernel algebra",
    "Every kernel, and every sum, product, integer power and scalar combination of kernels, evaluates to its documented formula on every pair of points, and its pairwise evaluation has entry (i, j) equal to the value at row i of the first and row j of the second argument. Kernel matrices are symmetric and positive semi-definite, and for the kernels that offer a square root, that kernel's formula is as documented.",
    ["inputs", "configurations"],
    "all kernels, hyper-parameters, composition trees, dimensions and point sets including coincident points, vectors and scalars",
    "The tests evaluate each kernel on a few hand-computed points and do not nest compositions.",
    K,
    [("compute / compute_elementwise / operators", "coreax/kernels")],
)
prop(
    "C13",
    "Kernel gradients and mixed divergences are the derivatives of the kernel",
    "For every kernel and every composition of kernels, the gradient with respect to either argument and the divergence of the gradient equal the corresponding derivatives of the kernel's own values wherever those exist, with the documented array shapes.",
    ["inputs", "configurations"],
    "all kernels, hyper-parameters, composition trees, dimensions and pairs of points at which the kernel is differentiable, coincident points included",
    "The tests compare hand-written derivatives on a handful of points per kernel; errors in scale factors vanish for unit scales.",
    K,
    [("grad_x / grad_y / divergence_x_grad_y", "coreax/kernels")],
    "Mixed divergence of a periodic kernel with non-unit output scale and Matern gradients at coincident points are known findings.",
)
prop(
    "C14",
    "MMD and joint MMD equal their weighted definitions",
    "The maximum mean discrepancy between two weighted datasets equals the square root of the weighted quadratic form of the kernel, for any block size, and the joint MMD equals the same with the product of feature and response kernels. Both are symmetric, non-negative, zero between identical weighted samples, and invariant to rescaling the weights, splitting a point's weight over copies, permuting rows and adding zero-weighted rows.",
    ["inputs", "configurations"],
    "all pairs of weighted (supervised) datasets, kernels, block sizes and unroll settings",
    "The tests use a few analytic examples, mostly unweighted.",
    ["coreax/metrics.py"],
    [("MMD.compute, JMMD.compute", "coreax/metrics.py")],
)
prop(
    "C15",
    "KSD and AMCMD equal their definitions",
    "The kernel Stein discrepancy equals the square root of the weighted mean of the Stein kernel over all pairs of points of the comparison dataset, plus the Laplace correction and minus the entropic regulariser when enabled, for any block size and for given scores or scores estimated from the reference dataset. The average maximum conditional mean discrepancy equals its closed form with the given regularisation parameter, averaged over the weighting data (the reference features if none are given).",
    ["inputs", "configurations"],
    "all weighted datasets, base kernels, score functions, options, block sizes",
    "The tests use a few analytic examples with one configuration each.",
    ["coreax/metrics.py", "coreax/score_matching.py", "coreax/kernels/scalar_valued.py"],
    [("KSD.compute, AMCMD.compute", "coreax/metrics.py"), ("SteinKernel", "coreax/kernels/scalar_valued.py")],
)

exec(open(os.path.join(HERE, "tools", "more_props.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "more_props.py")
) else None


def main():
    done = sorted(
        p for p in P if os.path.exists(os.path.join(HERE, "props", p.lower() + ".py"))
    )
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for pid in done:
            q = P[pid]
            fh.write(
                json.dumps(
                    {
                        "id": pid,
                        "title": q["title"],
                        "statement": q["statement"],
                        "quantifier": {"over": q["over"], "text": q["quant"]},
                        "why_tests_cant": q["why"],
                        "anchors": {
                            "files": q["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        },
                    }
                )
                + "\n"
            )
    py = "/opt/venv/bin/python /verif/vp/run.py"
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/verif/vendor'); import hypothesis, jax\"",
        "checks": [
            {
                "property": pid,
                "quick_cmd": f"{py} {pid} --tier quick",
                "thorough_cmd": f"{py} {pid} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": "property-based testing (Hypothesis) against a float64 reference model",
                "level": "exploration",
                "level_note": "No counterexample in the generated cases (counts, classes and the "
                "non-triviality rule are in the evidence file); trusts numpy float64 references and "
                "the rounding tolerances stated in DESIGN.md."
                + (" " + P[pid]["note"] if P[pid]["note"] else ""),
            }
            for pid in done
        ],
        "not_applicable": [],
        "notes": "Checks import coreax from /repo's working tree (no build step); 8 worker "
        "processes, half in single and half in double precision.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    print(len(done), "properties")


main()
