""" C27: pairwise metrics """

import math

import numpy as np
import scipy.sparse as sp
from sklearn.metrics import pairwise as native

from .. import data
from ..core import Skip, big_cases, call, must_raise
from ..subject import new_sparse, sparse_rows

RULE = (
    "A case draws one or two matrices (zero rows, parallel and opposite rows, duplicates, subnormal to 1e300 magnitudes, "
    "integers), optionally stores the first one sparsely, leaves the second one out or passes the identical object, and "
    "compares every entry with the native metric, within the bounds [-1, 1] and [0, 2] and with exact zeros on the "
    "self-distance diagonal. Distinct: metric, form and rounded results."
)
QUICK_SCALE = 36
REQUIRED = {"big_cases": 5, "answers_compared": 800, "sparse_answers": 100, "zero_rows": 50, "self_distances": 100}
EPS = 2.0 ** -52


def draw(ctx, n, d):
    rng = ctx.rng
    X = data.matrix(ctx, n, d).tolist()
    for i in range(n):
        u = rng.random()
        if u < 0.12:
            X[i] = [rng.choice([0.0, 0.0, -0.0]) for _ in range(d)]
        elif u < 0.25:
            f = rng.choice([-1.0, 1.0, 2.0, -0.5, 1e100, -1e-100, 3.0])
            X[i] = [v * f for v in X[rng.randrange(n)]]
        elif u < 0.37:
            e = rng.choice([-315, -200, -175, -140, -20, 20, 140, 152, 155, 200, 290])
            X[i] = [rng.uniform(-9, 9) * 10.0 ** e * (rng.random() < 0.8) for _ in range(d)]
        elif u < 0.45:
            X[i] = [rng.randint(-9, 9) for _ in range(d)]
    return X


def norm_state(row):
    """ (log10 of the squared norm, is it hard to compute) """
    big = max(abs(v) for v in row)
    if big == 0:
        return "zero"
    e = math.log10(big) * 2
    # squares near the subnormal or overflow limit carry few digits or none
    return "hard" if -325 < e < -285 or e > 302 else "fine"


def _case(ctx):
    from pure_sklearn.metrics import pairwise as pure

    rng = ctx.rng
    n, m, d = ctx.size([1, 2, 4, 9, 40], [2, 130, 300]), ctx.size([1, 2, 5, 40], [1, 130]), ctx.size([1, 2, 5, 20, 70], [5, 300, 1100])
    X = draw(ctx, n, d)
    form = rng.choice(["two", "two", "none", "same", "equal"])
    sparse = form in ("two", "equal") and rng.random() < 0.4
    Y = draw(ctx, m, d) if form == "two" else X if form == "same" else [list(r) for r in X] if form == "equal" else None
    name = rng.choice(["cosine_similarity", "cosine_distances", "linear_kernel"])
    ctx.sample = {"metric": name, "form": form, "sparse": sparse, "X": X, "Y": Y if form == "two" else form}
    A = np.array(X, dtype=float)
    B = {"none": None, "same": A}.get(form, np.array(Y, dtype=float) if Y is not None else None)
    Xn = sp.csr_matrix(A) if sparse else A
    try:
        with np.errstate(all="ignore"):
            ref = getattr(native, name)(Xn, B)
            ref = (ref.toarray() if sp.issparse(ref) else np.asarray(ref)).tolist()
    except Exception as e:
        raise Skip("native %s: %s" % (name, type(e).__name__))
    arg = new_sparse(sparse_rows(X), d) if sparse else X
    func = getattr(pure, name + "_pure")
    got = call(ctx, name, func, arg) if form == "none" and rng.random() < 0.5 else call(ctx, name, func, arg, Y)
    Z = X if Y is None else Y
    ctx.require(len(got) == n and all(len(g) == len(Z) for g in got), "%s: wrong shape" % name, got=got)
    ctx.event("answers_compared", n)
    ctx.event("sparse_answers", n if sparse else 0)
    sx, sz = [norm_state(r) for r in X], [norm_state(r) for r in Z]
    ctx.event("zero_rows", sx.count("zero"))
    for i in range(n):
        for j in range(len(Z)):
            a, b = got[i][j], ref[i][j]
            ctx.counters["oracle_evaluations"] += 1
            where = "%s (%s%s): entry %d,%d is %r, native %r" % (name, form, ", sparse" if sparse else "", i, j, a, b)
            if name == "linear_kernel":
                mag = sum(abs(x) * abs(y) for x, y in zip(X[i], Z[j]))
                if mag < 1e307:
                    ctx.require(abs(a - b) <= 4 * EPS * d * mag + 1e-322, where)
                continue
            if "hard" in (sx[i], sz[j]):
                ctx.event("entries_at_the_edge_of_the_number_range")
                if form in ("none", "same") and i == j and name == "cosine_distances":
                    ctx.require(a == 0, where)
                continue
            ctx.require(abs(a - b) <= 8 * EPS * (d + 2), where)
            if name == "cosine_distances":
                ctx.require(0 <= a <= 2, where + ", outside of [0, 2]")
                if form in ("none", "same") and i == j:
                    ctx.event("self_distances")
                    ctx.require(a == 0, where + ", distance to itself")
            elif "zero" in (sx[i], sz[j]):
                ctx.require(a == 0, where)
    ctx.state(name, form, sparse, [[round(v, 3) if math.isfinite(v) else repr(v) for v in r[:3]] for r in ref[:3]])


CASES = {"metric": (_case, 900, 60000)}
CASES.update(big_cases(CASES, QUICK_SCALE))
