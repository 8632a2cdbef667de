"""Float64 model of sequential greedy selection, and exact selection laws."""

import math

import numpy as np


class Stepper:
    """
    Replays a greedy selection slot by slot.

    ``gram`` is the kernel matrix of the data; ``init`` the indices of the coresubset being
    refined (empty: reduction). ``candidates()`` is the set of selectable points for the
    current slot, ``penalty`` the sum of kernel values with the other members.
    """

    def __init__(self, gram, w, m, init, unique):
        self.gram, self.w, self.m, self.unique = gram, w, m, unique
        self.slots = list(init) + [None] * max(0, m - len(init))
        self.size = len(init)
        self.penalty = gram[:, list(init)].sum(1) if len(init) else np.zeros(len(gram))
        self.chosen = []
        self.i = 0

    def open(self):
        """Enter the current slot; returns the mask of selectable points."""
        own = self.slots[self.i]
        if own is not None:
            self.penalty = self.penalty - self.gram[:, own]
        else:
            self.size += 1
        mask = self.w > 0
        if self.unique:
            for j, s in enumerate(self.slots):
                if s is None:
                    continue
                if j < self.i or s != own:
                    mask[s] = False
        return mask

    def choose(self, j):
        self.slots[self.i] = j
        self.penalty = self.penalty + self.gram[:, j]
        self.chosen.append(j)
        self.i += 1

    def copy(self):
        c = object.__new__(Stepper)
        c.__dict__.update(self.__dict__)
        c.slots = list(self.slots)
        c.chosen = list(self.chosen)
        return c


def follow(rec, idx, stepper, score, tol, what):
    """Each selected point must (nearly) maximise ``score(stepper)`` over the selectable.

    Returns the number of slots at which the choice was decided by more than ``tol``.
    """
    decided = 0
    for t, j in enumerate(np.asarray(idx).tolist()):
        mask = stepper.open()
        s = score(stepper)
        rec.require(
            0 <= j < len(mask) and mask[j],
            "%s: slot %d of %s holds %s, which is not selectable there",
            what,
            t,
            idx,
            j,
        )
        best = s[mask].max()
        rec.require(
            s[j] >= best - tol,
            "%s: slot %d of %s holds %d with objective %.9g, but %d has %.9g",
            what,
            t,
            np.asarray(idx),
            j,
            s[j],
            int(np.flatnonzero(mask)[s[mask].argmax()]),
            best,
        )
        rest = np.delete(s, j)[np.delete(mask, j)]
        if rest.size and s[j] > rest.max() + tol:
            decided += 1
        stepper.choose(j)
    return decided


def softmax_paths(steppers, score, temp):
    """One refinement pass of probabilistic selection, exactly.

    ``steppers``: list of (probability, Stepper at slot 0). Returns {final slots: prob}.
    """
    out = {}
    stack = list(steppers)
    while stack:
        p, s = stack.pop()
        if s.i == s.m:
            k = tuple(s.slots[: s.m])
            out[k] = out.get(k, 0.0) + p
            continue
        mask = s.open()
        z = np.where(mask, score(s), -np.inf) / temp
        q = np.exp(z - z.max())
        q /= q.sum()
        for j in np.flatnonzero(q > 0):
            c = s.copy()
            c.choose(int(j))
            stack.append((p * q[j], c))
    return out


def chi2_sf(x, k):
    """Survival function of the chi-square law (regularised upper incomplete gamma)."""
    if x <= 0:
        return 1.0
    a, z = k / 2.0, x / 2.0
    if z < a + 1:
        term = total = 1.0 / a
        for n in range(1, 2000):
            term *= z / (a + n)
            total += term
            if term < total * 1e-16:
                break
        return max(0.0, 1.0 - total * math.exp(-z + a * math.log(z) - math.lgamma(a)))
    b = z + 1 - a
    c = 1e300
    d = 1 / b
    h = d
    for n in range(1, 2000):
        an = -n * (n - a)
        b += 2
        d = an * d + b
        d = 1e-300 if abs(d) < 1e-300 else d
        c = b + an / c
        c = 1e-300 if abs(c) < 1e-300 else c
        d = 1 / d
        h *= d * c
        if abs(d * c - 1) < 1e-15:
            break
    return math.exp(-z + a * math.log(z) - math.lgamma(a)) * h


P_LIMIT = 1e-10


def law_test(rec, counts, law, what, slack=0.0):
    """
    Chi-square goodness of fit of ``counts`` (outcome -> count) to ``law`` (outcome ->
    probability); a p-value below 1e-10 or an impossible outcome is a violation.

    ``slack`` is an allowed absolute model error of each probability (rounding).
    """
    total = sum(counts.values())
    for k, c in counts.items():
        if law.get(k, 0.0) <= 1e-12 + slack * 1e-3 and c * 1.0 > 3 + 10 * slack * total:
            rec.require(False, "%s: outcome %s occurred %d times of %d, expected never", what, k, c, total)
    stat, cells, pe, pc = 0.0, 0, 0.0, 0.0
    items = sorted(set(law) | set(counts), key=lambda k: law.get(k, 0.0))
    groups = []
    for k in items:
        pe += law.get(k, 0.0) * total
        pc += counts.get(k, 0)
        if pe >= 10:
            groups.append((pe, pc, k))
            pe = pc = 0.0
    if pe or pc:
        if groups:
            e, c, k = groups.pop()
            groups.append((e + pe, c + pc, k))
        else:
            groups.append((pe, pc, None))
    if len(groups) < 2:
        rec.checks += 1
        return 1.0
    worst = None
    for e, c, k in groups:
        dev = max(0.0, abs(c - e) - slack * total)
        t = dev * dev / e
        stat += t
        if worst is None or t > worst[0]:
            worst = (t, k, c / total, e / total)
    p = chi2_sf(stat, len(groups) - 1)
    rec.require(
        p > P_LIMIT,
        "%s: observed frequencies do not follow the documented law (chi2=%.1f, %d cells, "
        "%d draws, p=%.2g); e.g. outcome %s: observed %.4f, law %.4f",
        what,
        stat,
        len(groups),
        total,
        p,
        worst[1],
        worst[2],
        worst[3],
    )
    return p


def tally(rows):
    """Outcome counts of an array of rows."""
    u, c = np.unique(np.asarray(rows), axis=0, return_counts=True)
    return {tuple(int(v) for v in np.atleast_1d(r)): int(k) for r, k in zip(u, c)}


def same_up_to_ties(rec, a, b, stepper, score, tol, what):
    """Two selections agree up to the first choice tied within ``tol``."""
    dec = 0
    for t, (i, j) in enumerate(zip(np.asarray(a).tolist(), np.asarray(b).tolist())):
        mask = stepper.open()
        s = score(stepper)
        rec.require(
            0 <= j < len(mask) and mask[i] and mask[j] and abs(s[i] - s[j]) <= tol,
            "%s: selection %s became %s (slot %d)",
            what,
            a,
            b,
            t,
        )
        rest = np.delete(s, i)[np.delete(mask, i)]
        if rest.size and s[i] > rest.max() + tol:
            dec += 1
        if i != j:  # a tie: the two runs may legitimately part here
            break
        stepper.choose(i)
    return dec
