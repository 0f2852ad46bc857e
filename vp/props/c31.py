""" C31: the functions on list matrices compute what NumPy computes """

import copy
import math
from operator import add, mul, sub

import numpy as np
import scipy.special as special

from ..core import Skip, attempt, call
from ..subject import is_sparse, new_sparse

RULE = (
    "A case draws list matrices and vectors (integers of any size, floats of any magnitude, zeros, one row or column, "
    "infinities and NaN where NumPy defines the answer) and compares each function of the list-matrix module, dense and "
    "sparse, with NumPy or SciPy: integers exactly, floats within a rounding bound from the magnitudes of the terms. Arguments "
    "must come out unchanged, and shapes which do not fit, sparse or dense matrices which a function cannot take, and what is "
    "no matrix must be refused. Distinct: (function, shape, element kind, rounded result)."
)
QUICK_SCALE = 20
REQUIRED = {"values_compared": 20000, "sparse_arguments": 1000, "refusals": 500, "integers_compared": 3000}
EPS = 2.3e-16


def functions():
    from pure_sklearn import base, utils

    return base, utils


def get(module, name):
    f = getattr(module, name, None)
    if f is None:
        raise Skip("no function %s" % name)
    return f


# ---------------------------------------------------------------------- inputs


def number(ctx, kind):
    rng = ctx.rng
    if rng.random() < 0.25:
        return 0 if kind == "int" else 0.0
    if kind == "int":
        return rng.choice([rng.randint(-9, 9), rng.randint(-10 ** 6, 10 ** 6), rng.randint(-10 ** 20, 10 ** 20)])
    if kind == "unit":
        return rng.uniform(-1, 1)
    return rng.gauss(0, 1) * 10.0 ** rng.choice([-200, -20, -3, 0, 0, 0, 3, 20, 120])


KINDS = ("int", "unit", "float")


def dims(ctx):
    return ctx.size([1, 1, 2, 3, 7], [1, 60]), ctx.size([1, 1, 2, 4, 11], [1, 90])


def matrix(ctx, n, d, kind):
    return [[number(ctx, kind) for _ in range(d)] for _ in range(n)]


def sparse_of(ctx, A):
    """ with some zeros stored """
    stored = ctx.rng.random() < 0.3
    ctx.event("sparse_arguments")
    rows = [{j: v for j, v in enumerate(r) if v != 0 or (stored and ctx.rng.random() < 0.5)} for r in A]
    return new_sparse(rows, len(A[0]), type(A[0][0]))


def dense_of(X):
    return [[r.get(j, 0) for j in range(X.size)] for r in X] if is_sparse(X) else X


def ask(ctx, name, f, *args):
    """ the answer; the arguments must survive """
    before = copy.deepcopy(args)
    out = call(ctx, name, f, *args)
    ctx.require(repr(before) == repr(args), "%s changed its arguments" % name, before=before, after=args)
    return out


def flat(x):
    if isinstance(x, (list, tuple)):
        return [v for a in x for v in flat(a)]
    return [x]


def compare(ctx, name, got, ref, tol=None, exact=False):
    """ nested lists of numbers; tol: nested list of absolute tolerances """
    ctx.require(np.shape(got) == np.shape(ref), "%s has shape %r, NumPy %r" % (name, np.shape(got), np.shape(ref)), got=got, ref=ref)
    g, r = flat(got), flat(ref)
    t = flat(tol) if tol is not None else [0.0] * len(r)
    for a, b, e in zip(g, r, t):
        same = (a == b) or (a != a and b != b)
        if not same and not exact and math.isfinite(a) and math.isfinite(b):
            same = abs(a - b) <= e + 4 * EPS * abs(b) + 1e-320
        ctx.require(same, "%s: %r instead of %r" % (name, a, b), got=got, ref=ref)
    ctx.event("values_compared", len(r))
    ctx.event("integers_compared", sum(type(v) is int for v in r))
    ctx.state(name, np.shape(ref), [float("%.3g" % v) for v in r[:3]])


def as_array(A, kind):
    return np.array(A, dtype=object if kind == "int" else float)


# ---------------------------------------------------------------------- cases


def _products(ctx):
    base, utils = functions()
    kind = ctx.rng.choice(KINDS)
    n, d = dims(ctx)
    m = dims(ctx)[0]
    A, B = matrix(ctx, n, d, kind), matrix(ctx, m, d, kind)
    a, b = as_array(A, kind), as_array(B, kind)
    with np.errstate(all="ignore"):
        ref = (a @ b.T).tolist()
        size = (abs(a) @ abs(b).T * ((d + 2) * EPS)).tolist() if kind != "int" else None
    if size is not None and not np.all(np.isfinite(size)):
        raise Skip("products overflow")
    for X in (A, sparse_of(ctx, A)):
        compare(ctx, "dot_2d", ask(ctx, "dot_2d", get(base, "dot_2d"), X, B), ref, size, kind == "int")
        compare(ctx, "dot", ask(ctx, "dot", get(base, "dot"), X[0], B), ref[0], size and size[0], kind == "int")
    C = matrix(ctx, n, d, kind)
    with np.errstate(all="ignore"):
        ref = (a * as_array(C, kind)).tolist()
    got = ask(ctx, "matmult_same_dim", get(base, "matmult_same_dim"), A, C)
    compare(ctx, "matmult_same_dim", got, ref, exact=True)
    got = ask(ctx, "matmult_same_dim", base.matmult_same_dim, sparse_of(ctx, A), sparse_of(ctx, C))
    ctx.require(is_sparse(got) and got.size == d, "product of sparse matrices is not sparse of the same width", got=got)
    compare(ctx, "matmult_same_dim sparse", dense_of(got), ref, exact=True)


OPERATIONS = (("add", add, np.add), ("sub", sub, np.subtract), ("mul", mul, np.multiply), ("max", max, np.maximum))


def _elementwise(ctx):
    base, utils = functions()
    rng = ctx.rng
    kind = rng.choice(KINDS)
    n, d = dims(ctx)
    A, B = matrix(ctx, n, d, kind), matrix(ctx, n, d, kind)
    a, b = as_array(A, kind), as_array(B, kind)
    name, f, g = rng.choice(OPERATIONS)
    with np.errstate(all="ignore"):
        compare(ctx, "operate_2d " + name, ask(ctx, "operate_2d", get(base, "operate_2d"), A, B, f), g(a, b).tolist(), exact=True)
        func = rng.choice([lambda x: x * 3, abs, lambda x: -x, lambda x: x + 1])
        compare(ctx, "apply_2d", ask(ctx, "apply_2d", get(base, "apply_2d"), A, func), func(a).tolist(), exact=True)
        func = rng.choice([lambda x: x * 3, abs, lambda x: -x, lambda x: x * x])
        got = ask(ctx, "apply_2d_sparse", get(base, "apply_2d_sparse"), sparse_of(ctx, A), func)
        ctx.require(is_sparse(got) and got.size == d, "apply_2d_sparse changed the width", got=got)
        compare(ctx, "apply_2d_sparse", dense_of(got), func(a).tolist(), exact=True)
    compare(ctx, "transpose", ask(ctx, "transpose", get(base, "transpose"), A), a.T.tolist(), exact=True)
    for name, f, g in (("max", max, np.max), ("min", min, np.min)):
        for axis in (0, 1):
            got = ask(ctx, "apply_axis_2d", get(base, "apply_axis_2d"), A, f, axis)
            compare(ctx, "apply_axis_2d %s" % name, got, g(a, axis=axis).tolist(), exact=True)
    if kind != "float":
        with np.errstate(all="ignore"):
            size = (np.abs(a).sum(axis=1) * (d * EPS)).tolist() if kind == "unit" else None
            ref = a.sum(axis=1).tolist()
        for X in (A, sparse_of(ctx, A)):
            compare(ctx, "apply_axis_2d sum", ask(ctx, "apply_axis_2d", base.apply_axis_2d, X, sum), ref, size)
    j = rng.randrange(d)
    for X in (A, sparse_of(ctx, A)):
        compare(ctx, "slice_column", ask(ctx, "slice_column", get(base, "slice_column"), X, j), a[:, j].tolist(), exact=True)
    idx = [rng.randrange(d) for _ in range(rng.randint(1, d + 1))]
    idx = tuple(idx) if rng.random() < 0.3 else idx
    for X in (A, sparse_of(ctx, A)):
        got = ask(ctx, "slice_column", base.slice_column, X, idx)
        ctx.require(is_sparse(got) == is_sparse(X), "slice_column changed the representation")
        compare(ctx, "slice_column list", dense_of(got), a[:, list(idx)].tolist(), exact=True)
    compare(ctx, "ravel", ask(ctx, "ravel", get(base, "ravel"), A), a.ravel().tolist(), exact=True)
    compare(ctx, "accumu", list(ask(ctx, "accumu", get(base, "accumu"), [int(x) % 1000 for x in A[0]])),
            np.cumsum([int(x) % 1000 for x in A[0]]).tolist(), exact=True)


EXTREME = [0.0, -0.0, 1e-320, -1e-320, 5e-324, 1e-17, 1.0, -1.0, 36.0, -36.0, 709.7, -709.7, 709.79, 745.2, -745.2, -746.0, 1e5, -1e5,
           1e308, -1e308, float("inf"), -float("inf"), float("nan")]


def _scalars(ctx):
    base, utils = functions()
    rng = ctx.rng
    xs = [rng.choice(EXTREME) for _ in range(6)] + [rng.gauss(0, 1) * 10 ** rng.uniform(-4, 3) for _ in range(6)]
    xs += [rng.uniform(-750, 750) for _ in range(2)] + [10 ** rng.uniform(-308, 308)]
    for x in xs:
        with np.errstate(all="ignore"):
            compare(ctx, "safe_exp", ask(ctx, "safe_exp", get(base, "safe_exp"), x), float(np.exp(x)))
            compare(ctx, "expit", ask(ctx, "expit", get(base, "expit"), x), float(special.expit(x)), 1e-306)
            compare(ctx, "safe_log", ask(ctx, "safe_log", get(base, "safe_log"), x), float(np.log(x)))
    kind = rng.choice(["unit", "far", "equal", "gone"])
    n = ctx.size([1, 2, 3, 12], [3, 800])
    arr = {"unit": lambda: [rng.gauss(0, 3) for _ in range(n)], "far": lambda: [rng.gauss(0, 1) * 10 ** rng.uniform(-2, 6) for _ in range(n)],
           "equal": lambda: [rng.choice([0.0, -1e6, 700.0])] * n,
           "gone": lambda: [rng.choice([-math.inf, rng.gauss(0, 5)]) for _ in range(n)] + [1.5]}[kind]()
    ref = special.softmax(np.array(arr))
    tol = [(4 + n + abs(v - max(arr)) if math.isfinite(v) else 0.0) * EPS * r for v, r in zip(arr, ref)]
    compare(ctx, "sfmax", ask(ctx, "sfmax", get(base, "sfmax"), arr), ref.tolist(), tol)
    keys = rng.sample(range(10 * n + 10), len(arr))
    got = ask(ctx, "sfmax", base.sfmax, dict(zip(keys, arr)))
    ctx.event("sparse_arguments")
    ctx.require(sorted(got) == sorted(keys), "sfmax of a sparse row changed its columns", got=got)
    compare(ctx, "sfmax sparse", [got[k] for k in keys], ref.tolist(), tol)
    ref = float(special.logsumexp(arr))
    compare(ctx, "logsumexp", ask(ctx, "logsumexp", get(base, "logsumexp"), arr), ref, (n + 4) * EPS * (1 + max(abs(ref), abs(max(arr)))))


def refuse(ctx, what, f, *args):
    ok, out = attempt(ctx, f, *args)
    ctx.event("refusals")
    ctx.require(not ok, "%s was accepted" % what, answer=out)


def _refusals(ctx):
    base, utils = functions()
    rng = ctx.rng
    n, d = dims(ctx)
    A = matrix(ctx, n, d, rng.choice(KINDS))
    S = sparse_of(ctx, A)
    wider = [r + [1] for r in A]
    longer = A + A[:1]
    for B in (wider, longer):
        refuse(ctx, "a product of different shapes", get(base, "matmult_same_dim"), A, B)
        refuse(ctx, "an operation on different shapes", get(base, "operate_2d"), A, B, add)
        refuse(ctx, "a product of different sparse shapes", base.matmult_same_dim, S, sparse_of(ctx, B))
    refuse(ctx, "a product of a dense and a sparse matrix", base.matmult_same_dim, A, S)
    refuse(ctx, "a product of a sparse and a dense matrix", base.matmult_same_dim, S, A)
    refuse(ctx, "an operation on sparse matrices", base.operate_2d, S, S, add)
    refuse(ctx, "an operation on a sparse and a dense matrix", base.operate_2d, A, S, add)
    refuse(ctx, "a sparse matrix in apply_2d", get(base, "apply_2d"), S, abs)
    refuse(ctx, "a dense matrix in apply_2d_sparse", get(base, "apply_2d_sparse"), A, abs)
    refuse(ctx, "a sparse matrix in transpose", get(base, "transpose"), S)
    refuse(ctx, "columns of a sparse matrix", get(base, "apply_axis_2d"), S, max, 0)
    refuse(ctx, "a third axis", base.apply_axis_2d, A, max, 2)
    check = get(utils, "check_array")
    for X in (None, tuple(A), np.array([[1.0]]), "abc", 3, {0: 1}, iter(A), [], ()):
        refuse(ctx, "%s as a matrix" % type(X).__name__, check, X)
        refuse(ctx, "%s as a sparse matrix" % type(X).__name__, check, X, "allow")
    refuse(ctx, "a sparse matrix where none is allowed", check, S)
    refuse(ctx, "a sparse matrix with an unknown rule", check, S, "maybe")
    for X, how in ((A, ()), (A, ("allow",)), (S, ("allow",)), (A[0], ())):
        out = call(ctx, "check_array", check, X, *how)
        ctx.require(dense_of(out) == dense_of(X) and is_sparse(out) == is_sparse(X), "check_array changed its argument", got=out)
    shape = get(utils, "shape")
    ctx.require(shape(A) == (n, d), "shape of a matrix is %r" % (shape(A),), A=A)
    ctx.require(shape(S) == (n, d), "shape of a sparse matrix is %r" % (shape(S),), A=A)
    ctx.require(shape(A[0]) == (d,), "shape of a list is %r" % (shape(A[0]),), A=A)
    ragged = [list(r) for r in longer]
    ragged[rng.randrange(n)].append(1)
    refuse(ctx, "a ragged matrix", shape, ragged)
    ctx.state(n, d)


CASES = {"products": (_products, 100, 4000), "elementwise": (_elementwise, 100, 4000), "scalars": (_scalars, 100, 4000),
         "refusals": (_refusals, 30, 1000)}
