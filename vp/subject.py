"""
A subject is one fitted native model with inputs for it, and the oracle that
says whether an answer of the converted model is the native one.
"""

import math
import pickle

import numpy as np
import scipy.sparse as sp

from .core import Skip, attempt, call


def convert(native):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(native)


def new_sparse(rows, size, dtype=float):
    from pure_sklearn.utils import sparse_list

    return sparse_list(rows, size=size, dtype=dtype)


def is_sparse(out):
    from pure_sklearn.utils import issparse

    return issparse(out)


def sparse_rows(X, explicit_zeros=None):
    """ list of {column: value} of a dense list of lists """
    out = []
    for i, row in enumerate(X):
        d = {j: v for j, v in enumerate(row) if v != 0}
        if explicit_zeros:
            for j in explicit_zeros.get(i, ()):
                d.setdefault(j, 0.0)
        out.append(d)
    return out


def native_list(out):
    """ native result -> plain nested lists """
    if sp.issparse(out):
        out = out.toarray()
    if isinstance(out, np.ndarray):
        return out.tolist()
    return list(out)


def pure_list(ctx, out, width=None, what="result"):
    """
    converted result -> plain nested lists.  Densifies with the checker's own
    code and checks that a sparse result is well formed.
    """
    if is_sparse(out):
        size = out.size
        ctx.require(
            isinstance(size, int) and (width is None or size == width),
            "%s: sparse result has size %r, expected %r" % (what, size, width),
        )
        rows = []
        for row in out:
            ctx.require(isinstance(row, dict), "%s: sparse row is not a dict" % what, row=row)
            dense = [0] * size
            for k, v in row.items():
                ctx.require(
                    isinstance(k, int) and 0 <= k < size,
                    "%s: column %r outside of 0..%d" % (what, k, size - 1),
                )
                dense[k] = v
            rows.append(dense)
        return rows
    return out


def isnan(x):
    return isinstance(x, float) and x != x


def same_number(a, b, rtol, atol):
    try:
        if a == b:
            return True
    except Exception:
        return False
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return False
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def compare_matrix(ctx, what, got, ref, rtol=1e-9, atol=1e-12, tol=None, **details):
    """ element by element; tol(i, j) -> absolute tolerance overrides atol """
    ctx.require(
        isinstance(got, list) and len(got) == len(ref),
        "%s: %s rows, native has %d" % (what, len(got) if hasattr(got, "__len__") else got, len(ref)),
        got=got, ref=ref, **details
    )
    for i, (g, r) in enumerate(zip(got, ref)):
        if isinstance(r, list):
            ctx.require(
                isinstance(g, list) and len(g) == len(r),
                "%s: row %d has %s columns, native has %d"
                % (what, i, len(g) if hasattr(g, "__len__") else g, len(r)),
                got=g, ref=r, **details
            )
            for j, (a, b) in enumerate(zip(g, r)):
                at = atol if tol is None else tol(i, j)
                if not same_number(a, b, rtol, at):
                    ctx.fail(
                        "%s: row %d column %d is %r, native %r (difference %s)"
                        % (what, i, j, a, b, _diff(a, b)),
                        got=g, ref=r, **details
                    )
            ctx.counters["oracle_evaluations"] += len(r)
        else:
            at = atol if tol is None else tol(i, None)
            ctx.require(
                same_number(g, r, rtol, at),
                "%s: entry %d is %r, native %r (difference %s)" % (what, i, g, r, _diff(g, r)),
                **details
            )


def _diff(a, b):
    try:
        return abs(a - b)
    except Exception:
        return "n/a"


def same_label(a, b):
    """ labels as Python values, where 1, 1.0 and True are different labels """
    return type(a) is type(b) and a == b


def compare_labels(ctx, what, got, ref, scores=None, exact=None, tie_tol=None, classes=None, **details):
    """
    got must equal ref; where the native scores of the two labels differ by at
    most tie_tol(i) and the row is not exact(i), rounding may choose either.
    """
    ctx.require(
        isinstance(got, list) and len(got) == len(ref),
        "%s: %s labels for %d rows" % (what, len(got) if hasattr(got, "__len__") else got, len(ref)),
        **details
    )
    for i, (g, r) in enumerate(zip(got, ref)):
        ctx.counters["oracle_evaluations"] += 1
        if same_label(g, r):
            continue
        ok = False
        if scores is not None and not (exact is not None and exact(i)):
            idx = {repr(c): j for j, c in enumerate(classes)}
            if repr(g) in idx and repr(r) in idx:
                s = scores[i]
                gap = abs(s[idx[repr(g)]] - s[idx[repr(r)]])
                ok = gap <= tie_tol(i)
                if ok:
                    ctx.counters["near_ties_tolerated"] += 1
        if not ok:
            ctx.fail(
                "%s: row %d has label %r, native %r" % (what, i, g, r),
                scores=None if scores is None else scores[i], **details
            )


def check_log_proba(ctx, what, got, ref, rel=1e-9, sub=1e-14, sub_columns=None, **details):
    """
    log-probabilities: relative error `rel` of the probability plus an absolute
    error `sub` of the probability (from 1 - p) are allowed.
    """
    ctx.require(len(got) == len(ref), "%s: %d rows, native %d" % (what, len(got), len(ref)))
    for i, (g, r) in enumerate(zip(got, ref)):
        ctx.require(len(g) == len(r), "%s: row %d has %d columns, native %d" % (what, i, len(g), len(r)))
        for j, (a, b) in enumerate(zip(g, r)):
            ctx.counters["oracle_evaluations"] += 1
            if a == b or (isnan(a) and isnan(b)):
                continue
            ok = False
            if not (isnan(a) or isnan(b)):
                hi, lo = max(a, b), min(a, b)
                p = math.exp(min(hi, 0.0)) if hi > -745 else 0.0
                sub_j = sub if sub_columns is None or j in sub_columns else 0.0
                if sub_j > 0 and p <= 4 * sub_j:
                    ok = True
                elif hi <= -700:
                    # subnormal probabilities carry few digits
                    step = 5e-324 / math.exp(hi) if hi > -744 else 1.0
                    ok = (lo == -math.inf and hi < -744) or hi - lo < 1e-9 + rel + 2 * step
                elif lo > -math.inf:
                    ok = hi - lo <= rel + rel * abs(hi) * 1e-3 + (2 * sub_j / p if p else 0)
            if not ok:
                ctx.fail(
                    "%s: row %d column %d is %r, native %r" % (what, i, j, a, b),
                    got=g, ref=r, **details
                )


class Subject:
    kind = "matrix"  # matrix | docs | dicts
    sparse_ok = False
    classifier = False
    exact_labels = False
    # equal probabilities mean equal labels (else a raw score decides)
    labels_from_proba = True
    # the native answer for a row depends on the rest of the batch (a native bug)
    native_rowwise = False
    rtol, atol = 1e-9, 1e-12
    log_rel, log_sub = 1e-9, 1e-14
    tie = 1e-9
    # columns computed as 1 - p, the others are precise however small they are
    complement_columns = None
    tiny = 1e-320

    def __init__(self, ctx, family, native, rows, methods, config=None, **attrs):
        self.family, self.native, self.rows = family, native, rows
        self.methods = methods
        self.config = config or {}
        for k, v in attrs.items():
            setattr(self, k, v)
        ctx.sample = {"family": family, "config": self.config, "rows": len(rows)}

    # ------------------------------------------------------------ conversion
    def convert(self, ctx):
        return call(ctx, "converting %s %s" % (self.family, self.config), convert, self.native)

    def clone(self, pure):
        return pickle.loads(pickle.dumps(pure))

    # ---------------------------------------------------------------- inputs
    @property
    def width(self):
        return len(self.rows[0]) if self.kind == "matrix" else None

    def pure_input(self, rows, sparse=False, explicit=None):
        if self.kind == "matrix" and sparse:
            return new_sparse(sparse_rows(rows, explicit), len(rows[0]))
        if self.kind == "matrix":
            return [list(r) for r in rows]
        if self.kind == "dicts":
            return [dict(r) for r in rows]
        return list(rows)

    def native_input(self, rows, sparse=False):
        if self.kind == "matrix":
            if getattr(self, "object_rows", False):
                X = np.empty((len(rows), len(rows[0])), dtype=object)
                for i, r in enumerate(rows):
                    for j, v in enumerate(r):
                        X[i, j] = v
                return X
            X = np.array(rows, dtype=float)
            return sp.csr_matrix(X) if sparse else X
        return rows

    def apply(self, pure, method, rows, sparse=False, explicit=None):
        """ the call whose answer is observed """
        return getattr(pure, method)(self.pure_input(rows, sparse, explicit))

    def split(self, method, out):
        """ a batch answer -> one answer per row """
        return list(out)

    # ---------------------------------------------------------------- oracle
    def reference(self, method, rows, sparse=False):
        try:
            if self.native_rowwise:
                out = []
                for row in rows:
                    out.extend(native_list(getattr(self.native, method)(self.native_input([row], sparse))))
                return out
            return native_list(getattr(self.native, method)(self.native_input(rows, sparse)))
        except Exception as e:
            raise Skip("native %s.%s: %s" % (self.family, method, type(e).__name__))

    def classes(self):
        return self.native.classes_.tolist()

    def check(self, ctx, pure, method, rows, sparse=False, explicit=None, ref=None):
        """ one observed execution: converted answer against the native one """
        if ref is None:
            ref = self.reference(method, rows, sparse and self.native_sparse())
        what = "%s.%s%s" % (self.family, method, " (sparse)" if sparse else "")
        out = call(ctx, what, self.apply, pure, method, rows, sparse, explicit)
        ctx.event("answers_compared", len(rows))
        ctx.event("method:%s" % method)
        self.verify(ctx, pure, what, method, rows, out, ref)
        return out

    def native_sparse(self):
        """ compare with the native answer for sparse input """
        return True

    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "family": self.family}
        if method == "predict" and self.classifier:
            P = self.reference("predict_proba", rows) if hasattr(self.native, "predict_proba") else None
            exact = None
            if P is not None and not self.exact_labels and not self.labels_from_proba:
                exact = None
            elif P is not None and not self.exact_labels:
                p = call(ctx, what + " probabilities", pure.predict_proba, self.pure_input(rows))
                exact = lambda i: p[i] == P[i]
            elif P is None or self.exact_labels:
                exact = lambda i: True
            compare_labels(
                ctx, what, out, ref, scores=P, exact=exact, tie_tol=lambda i: self.tie,
                classes=self.classes(), **det
            )
        elif method == "predict_log_proba":
            check_log_proba(ctx, what, out, ref, rel=self.log_rel, sub=self.log_sub, sub_columns=self.complement_columns, **det)
        else:
            width = len(ref[0]) if ref and isinstance(ref[0], list) else None
            got = pure_list(ctx, out, width, what)
            tol = None
            if method == "predict_proba" and self.complement_columns is not None:
                tol = lambda i, j: self.atol if j in self.complement_columns else self.tiny
            compare_matrix(ctx, what, got, ref, rtol=self.rtol, atol=self.atol, tol=tol, **det)

    def same_answer(self, ctx, what, a, b, tol=0.0):
        """ two answers of converted models, bit for bit unless tol """
        if not equal(a, b, tol):
            ctx.fail(what, got=a, expected=b, config=self.config, family=self.family)
        ctx.counters["oracle_evaluations"] += 1


def equal(a, b, tol=0.0):
    """ deep equality of results: same shape, same types, NaN equal to NaN """
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        if is_sparse(a) and (a.size != b.size or a.dtype is not b.dtype):
            return False
        return len(a) == len(b) and all(equal(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float):
        if a == b or (a != a and b != b):
            return True
        return tol > 0 and math.isfinite(a) and math.isfinite(b) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    return a == b


def fit_or_skip(native, *args, **kwargs):
    try:
        return native.fit(*args, **kwargs)
    except Exception as e:
        raise Skip("native fit: %s: %s" % (type(e).__name__, str(e)[:60]))
