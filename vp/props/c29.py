""" C29: a number means the same as an integer, a float or a boolean """

import copy

from .. import data, zoo
from ..core import Skip, Violation, attempt, big_cases, call
from ..subject import equal, new_sparse
from .c21 import _close, agrees

RULE = (
    "A case draws one converted model and rows with many small integral cells, asks each method for the rows as floats and "
    "for the same rows with integral cells written as integers, with zeros and ones written as booleans and with all of them "
    "mixed (dense, sparse of every dtype, explicitly stored zeros, values of mappings), and compares the answers within the "
    "bounds of the family's own oracle. 'metrics' does the same for metrics and normalisation. Distinct: models with the "
    "observed answers."
)
QUICK_SCALE = 10
REQUIRED = {"variant_calls": 1500, "cells_rewritten": 10000, "sparse_calls": 300, "boolean_cells": 2000}


def _integral(v):
    return isinstance(v, (int, float)) and v == v and abs(v) <= 2 ** 20 and v == int(v)


def as_float(v):
    return float(v) if _integral(v) else v


def as_int(v):
    return int(v) if _integral(v) else v


def as_bool(v):
    return bool(v) if _integral(v) and v in (0, 1) else v


def rewrites(ctx):
    rng = ctx.rng

    def mixed(v):
        return rng.choice([as_float, as_int, as_bool, as_int])(v)

    return [("integers", as_int), ("booleans", as_bool), ("mixed", mixed)]


def rewrite(ctx, rows, f):
    out = [[f(v) for v in row] for row in rows]
    for a, b in zip(rows, out):
        ctx.event("cells_rewritten", sum(type(x) is not type(y) for x, y in zip(a, b)))
        ctx.event("boolean_cells", sum(type(y) is bool for y in b))
    return out


def integralise(ctx, rows):
    """ rows with mostly small integral cells; whole rows of them as well """
    rng = ctx.rng
    out = []
    for row in rows:
        p = rng.choice([0.3, 1.0, 1.0])
        new = []
        for v in row:
            if isinstance(v, float) and v == v and abs(v) < 2 ** 20 and rng.random() < p:
                v = float(round(v))
            elif isinstance(v, float) and rng.random() < p * 0.5:
                v = float(rng.choice([0, 0, 1, 1, 2, 7]))
            new.append(v)
        out.append(new)
    return out


def sparse_of(ctx, rows, zeros=True):
    """ ways to write rows as a sparse_list; the kind of numbers is arbitrary """
    from pure_sklearn.utils import tosparse

    rng = ctx.rng
    d = len(rows[0])
    out = [("tosparse", tosparse([list(r) for r in rows]))]
    cells = []
    for row in rows:
        items = [(j, v) for j, v in enumerate(row) if v != 0 or zeros and rng.random() < 0.3]
        rng.shuffle(items)
        cells.append(dict(items))
    out.append(("stored zeros", new_sparse(cells, d, rng.choice([float, int, bool]))))
    return out


def _run(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, rng.choice([1, 2, 8]))
        if s.kind == "dicts":
            return _mappings(ctx, s)
        if s.kind not in ("matrix", "counts"):
            raise Skip("no numbers")
        pure = s.convert(ctx)
        rows = [[as_float(v) for v in row] for row in zoo.usable_rows(ctx, s, 8)]
        free = family != "encoder" and not any(isinstance(v, (str, type(None))) for row in rows for v in row)
        if free:
            rounded = integralise(ctx, rows)
            try:
                for method in s.methods:
                    s.reference(method, rounded)
                rows = rounded
            except Skip:
                pass
        for method in s.methods:
            what = "%s.%s" % (s.family, method)
            ok, base = attempt(ctx, s.apply, pure, method, rows)
            for name, f in rewrites(ctx):
                variant = rewrite(ctx, rows, f)
                args = [("dense", [list(r) for r in variant])] if s.kind == "matrix" else []
                if free and (s.sparse_ok or s.kind == "counts") and not any(v != v for row in rows for v in row):
                    # (the logarithm of a stored zero count is infinite, natively as well)
                    args += sparse_of(ctx, variant, zeros=s.kind == "matrix")
                for form, arg in args:
                    where = "%s of %s (%s)" % (what, name, form)
                    before = copy.deepcopy(arg)
                    good, out = attempt(ctx, getattr(pure, method), arg)
                    ctx.event("variant_calls")
                    ctx.event("sparse_calls", int(form != "dense"))
                    ctx.require(equal(arg, before), where + ": the input was changed", config=s.config)
                    if good != ok:
                        ctx.fail(
                            where + (" raised %s: %s" % (type(out).__name__, out) if ok else " is accepted, floats are refused"),
                            rows=variant, config=s.config,
                        )
                    if not ok:
                        continue
                    if not _close(out, base) and not (s.kind == "matrix" and agrees(ctx, s, pure, where, method, rows, out, base)):
                        ctx.fail(where + " differs from the answer for floats", got=out, floats=base, rows=variant, config=s.config)
                    ctx.counters["oracle_evaluations"] += len(rows)
            ctx.state(family, method, repr(base)[:300])

    return case


def _mappings(ctx, s):
    pure = s.convert(ctx)
    rows = [{k: as_float(v) for k, v in row.items()} for row in s.rows]
    for method in s.methods:
        ok, base = attempt(ctx, s.apply, pure, method, rows)
        for name, f in rewrites(ctx):
            variant = [{k: f(v) for k, v in row.items()} for row in rows]
            for a, b in zip(rows, variant):
                ctx.event("cells_rewritten", sum(type(a[k]) is not type(b[k]) for k in a))
                ctx.event("boolean_cells", sum(type(v) is bool for v in b.values()))
            where = "%s.%s of %s" % (s.family, method, name)
            good, out = attempt(ctx, s.apply, pure, method, variant)
            ctx.event("variant_calls")
            if good != ok:
                ctx.fail(where + (" raised %r" % out if ok else " is accepted, floats are refused"), rows=variant, config=s.config)
            if ok and not _close(out, base):
                ctx.fail(where + " differs from the answer for floats", got=out, floats=base, rows=variant, config=s.config)
            ctx.counters["oracle_evaluations"] += len(rows)
        ctx.state(s.family, method, repr(base)[:300])


def _metrics(ctx):
    from pure_sklearn.metrics import pairwise
    from pure_sklearn.preprocessing import normalize_pure

    rng = ctx.rng
    n, d = rng.choice([1, 2, 5]), rng.choice([1, 2, 6, 20])
    X = integralise(ctx, data.matrix(ctx, n, d, rng.choice(("gauss", "grid", "int", "binary"))).tolist())
    Y = integralise(ctx, data.matrix(ctx, rng.choice([1, 3]), d, rng.choice(("gauss", "binary"))).tolist())
    ops = [(m, getattr(pairwise, m + "_pure"), True, {}) for m in ("cosine_similarity", "cosine_distances", "linear_kernel")]
    ops += [("normalize_pure " + n, normalize_pure, False, {"norm": n}) for n in ("l1", "l2", "max")]
    for what, f, two, kw in ops:
        base = call(ctx, what, f, [list(r) for r in X], *([[list(r) for r in Y]] if two else []), **kw)
        for name, g in rewrites(ctx):
            V, W = rewrite(ctx, X, g), rewrite(ctx, Y, g)
            for form, arg in [("dense", V)] + sparse_of(ctx, V):
                where = "%s of %s (%s)" % (what, name, form)
                out = call(ctx, where, f, arg, *([W] if two else []), **kw)
                ctx.event("variant_calls")
                ctx.event("sparse_calls", int(form != "dense"))
                ctx.require(_close(out, base), where + " differs from the answer for floats", got=out, floats=base, X=V, Y=W)
        ctx.state(what, repr(base)[:200])


FAMILIES = ("linear", "tree", "ensemble", "gb", "xgb", "nb", "dummy", "scaler", "encoder", "imputer", "tfidf", "dict", "pipe")
QUICK = {"xgb": 16, "gb": 20, "linear": 60, "pipe": 60}
CASES = {f: (_run(f), QUICK.get(f, 40), QUICK.get(f, 40) * 30) for f in FAMILIES}
CASES["metrics"] = (_metrics, 100, 6000)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
