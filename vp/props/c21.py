""" C21: sparse input means the same as dense input """

import copy

from .. import data, zoo
from ..core import Skip, Violation, attempt, big_cases, call
from ..subject import compare_matrix, equal, is_sparse, new_sparse, same_number, sparse_rows

RULE = (
    "'roundtrip' cases convert matrices (zero rows and columns, negative values, integers, booleans, NaN) to the sparse "
    "representation and back and compare every cell; the other cases call each method of a converted model on dense rows and "
    "on the equal sparse rows (built by the package, or with explicitly stored zeros in several orders) and compare; models "
    "documented for dense input only have to refuse or agree. 'metrics' does the same for metrics and normalisation. "
    "Distinct: models with the observed answers."
)
QUICK_SCALE = 10
REQUIRED = {"sparse_calls": 800, "explicit_zeros": 500, "cells_round_tripped": 5000, "refused_sparse": 60}


def _close(a, b):
    """ equal up to rounding, whatever the nesting """
    if is_sparse(a) or is_sparse(b):
        if not (is_sparse(a) and is_sparse(b)):
            a, b = _dense(a), _dense(b)
        else:
            return a.size == b.size and _close(_dense(a), _dense(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return same_number(a, b, 1e-9, 1e-12)
    return a == b


def _dense(a):
    if not is_sparse(a):
        return a
    return [[row.get(j, 0) for j in range(a.size)] for row in a]


def variants(ctx, rows):
    """ the ways to write rows as a sparse_list """
    from pure_sklearn.utils import tosparse

    rng = ctx.rng
    d = len(rows[0])
    out = [("tosparse", tosparse([list(r) for r in rows])), ("minimal", new_sparse(sparse_rows(rows), d))]
    explicit = []
    for row in rows:
        items = [(j, v) for j, v in enumerate(row) if v != 0 or rng.random() < 0.4]
        ctx.event("explicit_zeros", sum(1 for _, v in items if v == 0))
        rng.shuffle(items)
        explicit.append(dict(items))
    out.append(("explicit zeros", new_sparse(explicit, d)))
    return out


def sparsify(ctx, rows):
    """ more zeros, also whole rows, in dense rows """
    rng = ctx.rng
    out = []
    for row in rows:
        p = rng.choice([0.0, 0.3, 0.9, 1.0])
        out.append([0.0 if rng.random() < p else v for v in row])
    return out


def _run(family):
    def case(ctx):
        s = zoo.make(ctx, family, ctx.rng.choice([1, 3, 8]))
        if s.kind != "matrix" or any(isinstance(v, (str, type(None))) for row in s.rows for v in row):
            raise Skip("not a numeric model")
        pure = s.convert(ctx)
        base = zoo.usable_rows(ctx, s, 8)
        for rows in (base, sparsify(ctx, base)):
            if any(v != v for row in rows for v in row):
                continue
            for method in s.methods:
                what = "%s.%s" % (s.family, method)
                status, dense = attempt(ctx, s.apply, pure, method, rows)
                for form, arg in variants(ctx, rows):
                    before = copy.deepcopy(arg)
                    ctx.event("sparse_calls")
                    ok, out = attempt(ctx, getattr(pure, method), arg)
                    ctx.require(equal(arg, before), what + ": sparse input was changed", config=s.config)
                    if not ok and s.sparse_ok and status:
                        ctx.fail("%s of sparse input (%s) raised %s: %s" % (what, form, type(out).__name__, out), config=s.config)
                    if not ok:
                        ctx.event("refused_sparse")
                        continue
                    if not status:
                        ctx.fail(what + ": sparse input is accepted, the equal dense input refused", config=s.config, dense=dense)
                    if not _close(out, dense) and not agrees(ctx, s, pure, what, method, rows, out, dense):
                        ctx.fail(
                            "%s of sparse input (%s) differs from the dense answer" % (what, form), got=out, dense=dense,
                            rows=rows, config=s.config,
                        )
                    ctx.counters["oracle_evaluations"] += len(rows)
                    ctx.state(family, method, form, repr(dense)[:300])

    return case


def agrees(ctx, s, pure, what, method, rows, out, dense):
    """ within the error bounds of the family's own oracle, dense answer as reference """
    try:
        s.verify(ctx, pure, what, method, rows, out, _dense(dense))
        return True
    except Violation:
        return False


VALUES = [0, 0.0, -0.0, 1, -1, 0.5, -2.25, 1e-320, 1e308, float("inf"), float("nan"), 2 ** 60, True, False, 3]


def _roundtrip(ctx):
    from pure_sklearn.utils import issparse, shape, todense, tosparse

    rng = ctx.rng
    n, d = rng.choice([1, 2, 6]), rng.choice([1, 2, 5, 30])
    kind = rng.choice(["float", "int", "mixed", "bool"])
    pool = {"float": [0.0, 0.0, -1.5, 2.25, 1e-300, -7e200, 3.0], "int": [0, 0, 1, -5, 2 ** 40], "mixed": VALUES,
            "bool": [True, False]}[kind]
    X = [[rng.choice(pool) for _ in range(d)] for _ in range(n)]
    if rng.random() < 0.4:
        X[rng.randrange(n)] = [pool[0] * 0] * d
    if rng.random() < 0.3:
        j = rng.randrange(d)
        for row in X:
            row[j] = 0
    before = copy.deepcopy(X)
    S = call(ctx, "tosparse", tosparse, X)
    ctx.require(issparse(S) and not issparse(X), "issparse is wrong")
    ctx.require(tuple(shape(S)) == (n, d) == tuple(shape(X)), "shape of the sparse form is %r, not %r" % (shape(S), (n, d)))
    D = call(ctx, "todense", todense, S)
    ctx.require(equal(X, before), "tosparse changed its input", before=before, after=X)
    ctx.require(isinstance(D, list) and not issparse(D) and len(D) == n, "todense: wrong number of rows", got=D)
    for i in range(n):
        ctx.require(len(D[i]) == d, "todense: wrong number of columns", got=D, X=X)
        for j in range(d):
            ctx.event("cells_round_tripped")
            ctx.require(
                same_number(D[i][j], X[i][j], 0.0, 0.0) and (X[i][j] == 0 or type(D[i][j]) is type(X[i][j])),
                "cell %d,%d is %r after the round trip, was %r" % (i, j, D[i][j], X[i][j]), X=X,
            )
    S2 = call(ctx, "tosparse", tosparse, D)
    ctx.require(
        len(S2) == len(S) and S2.size == S.size and all(equal(dict(a), dict(b)) for a, b in zip(S, S2)),
        "sparse form changes in a second round trip", first=list(S), second=list(S2),
    )
    # a sparse_list made by hand, with stored zeros
    H = new_sparse(sparse_rows(X, {i: range(d) for i in range(n) if rng.random() < 0.5}), d, rng.choice([int, float]))
    D = call(ctx, "todense", todense, H)
    ctx.require(
        len(D) == n and all(len(r) == d and all(same_number(a, b, 0.0, 0.0) for a, b in zip(r, x)) for r, x in zip(D, X)),
        "todense of a hand-made sparse_list differs", got=D, X=X,
    )
    ctx.state(kind, n, d, repr(X)[:200])


def _metrics(ctx):
    from pure_sklearn.metrics import pairwise
    from pure_sklearn.preprocessing import normalize_pure

    rng = ctx.rng
    n, d = rng.choice([1, 2, 5]), rng.choice([1, 2, 6, 20])
    X = sparsify(ctx, data.matrix(ctx, n, d, rng.choice(("gauss", "grid", "int", "binary"))).tolist())
    Y = data.matrix(ctx, rng.choice([1, 3]), d, "gauss").tolist()
    ops = [(m, getattr(pairwise, m + "_pure"), (Y,), {}) for m in ("cosine_similarity", "cosine_distances", "linear_kernel")]
    ops += [("normalize_pure " + n, normalize_pure, (), {"norm": n}) for n in ("l1", "l2", "max")]
    for what, f, rest, kw in ops:
        dense = call(ctx, what, f, [list(r) for r in X], *rest, **kw)
        for form, arg in variants(ctx, X):
            out = call(ctx, "%s of sparse input (%s)" % (what, form), f, arg, *rest, **kw)
            ctx.event("sparse_calls")
            ctx.require(_close(out, dense), "%s of sparse input (%s) differs from the dense answer" % (what, form),
                        got=_dense(out), dense=dense, X=X)
        ctx.state(what, repr(dense)[:200])


FAMILIES = ("linear", "tree", "ensemble", "gb", "xgb", "nb", "dummy", "scaler", "imputer", "pipe")
QUICK = {"xgb": 16, "gb": 20, "linear": 60, "pipe": 60}
CASES = {f: (_run(f), QUICK.get(f, 40), QUICK.get(f, 40) * 30) for f in FAMILIES}
CASES["roundtrip"] = (_roundtrip, 400, 20000)
CASES["metrics"] = (_metrics, 150, 8000)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
