""" Scalers, normalisers, encoders, imputers """

import math

import numpy as np
import scipy.sparse as sp
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.preprocessing import (
    MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler,
)

from . import data
from .core import Skip
from .subject import Subject, compare_matrix, fit_or_skip, pure_list

EPS = 2.0 ** -52
SCALER_KINDS = ("standard", "minmax", "maxabs", "normalizer")


def hostile_rows(ctx, X, m):
    """ rows over all magnitudes, with zero rows, signed zeros and integers """
    rng, r = ctx.rng, ctx.np
    d = X.shape[1]
    rows = []
    for _ in range(m):
        u = rng.random()
        if u < 0.25:
            row = X[rng.randrange(len(X))].tolist()
        elif u < 0.35:
            row = [0.0] * d
        elif u < 0.45:
            row = [rng.choice([0.0, -0.0, 1.0, -1.0]) for _ in range(d)]
        elif u < 0.6:
            e = rng.choice([-320, -310, -170, -150, -20, 20, 150, 160, 300, 307])
            row = [rng.uniform(-9, 9) * 10.0 ** (e + rng.choice([0, 0, -1])) for _ in range(d)]
        elif u < 0.7:
            row = [-abs(v) for v in data.matrix(ctx, 1, d, "gauss")[0].tolist()]
        elif u < 0.8:
            row = [rng.randint(-9, 9) for _ in range(d)]
        elif u < 0.9:
            row = [v if rng.random() < 0.3 else 0.0 for v in data.matrix(ctx, 1, d, "wide")[0].tolist()]
        else:
            row = data.matrix(ctx, 1, d, "wide")[0].tolist()
        rows.append([float(v) if abs(v) < 1.7e308 else 1e308 for v in row])
    return rows


class ScalerSubject(Subject):
    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "family": self.family}
        est = self.native
        got = pure_list(ctx, out, len(rows[0]), what)
        tol = lambda i, j: 1e-320
        if isinstance(est, StandardScaler) and est.with_mean:
            scale = est.scale_ if est.scale_ is not None else np.ones(len(est.mean_))
            tol = lambda i, j: 4 * EPS * (abs(rows[i][j]) + abs(est.mean_[j])) / scale[j] + 1e-320
        elif isinstance(est, MinMaxScaler):
            tol = lambda i, j: 4 * EPS * (abs(rows[i][j] * est.scale_[j]) + abs(est.min_[j])) + 1e-320
        compare_matrix(ctx, what, got, ref, rtol=1e-13, tol=lambda i, j: min(tol(i, j), 1e300), **det)
        for g in ref:
            if all(v == 0 for v in g):
                ctx.event("zero_rows")
            big = max(abs(v) for v in g)
            ctx.state(self.family, repr(sorted(self.config.items())), round(math.log10(big)) if 0 < big < math.inf else big)


def make_scaler(ctx, kind=None, n_rows=None, with_sparse=None):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(SCALER_KINDS)
    n, d = rng.choice([1, 2, 10, 40]), ctx.size([1, 2, 5, 12], [5, 300, 1500])
    X = data.matrix(ctx, n, d)
    if rng.random() < 0.4:
        X[:, rng.randrange(d)] = rng.choice([0.0, 0.0, 5.0, -2.5])
    config = {"kind": kind, "features": d}
    sparse_ok = True
    if kind == "standard":
        kw = {"with_mean": rng.random() < 0.6, "with_std": rng.random() < 0.75}
        sparse_ok = not kw["with_mean"]
        est = StandardScaler(**kw)
    elif kind == "minmax":
        kw = {"feature_range": rng.choice([
            (0, 1), (-1, 1), (0.25, 3.5), (-7, -2), (-1e6, 1e6), (np.float64(0.5), np.float64(2.5)), (np.float32(-1), np.int64(4)),
        ])}
        sparse_ok = False
        est = MinMaxScaler(**kw)
    elif kind == "maxabs":
        kw = {}
        est = MaxAbsScaler()
    else:
        kw = {"norm": rng.choice(["l1", "l2", "max"])}
        est = Normalizer(**kw)
    if rng.random() < 0.2:
        kw["copy"] = False
        est.set_params(copy=False)
        X = X.copy()
    Xf = sp.csr_matrix(X) if sparse_ok and rng.random() < 0.3 else X
    fit_or_skip(est, Xf)
    if hasattr(est, "partial_fit") and rng.random() < 0.2:
        est.partial_fit(Xf)
    config.update(kw)
    m = n_rows or ctx.size([1, 4, 20], [4, 60, 1500])
    rows = hostile_rows(ctx, X, m)
    return ScalerSubject(ctx, type(est).__name__, est, rows, ["transform"], config, sparse_ok=sparse_ok)


# ------------------------------------------------------------------ encoders


class EncoderSubject(Subject):
    rtol = atol = 0.0
    object_rows = True

    def verify(self, ctx, pure, what, method, rows, out, ref):
        super().verify(ctx, pure, what, method, rows, out, ref)
        # codes are usable as indices exactly where natively so
        for g, r in zip(pure_list(ctx, out, len(ref[0]), what), ref):
            for a, b in zip(g, r):
                ctx.require(type(a) is type(b) or self.config["sparse"], "%s: %r, native %r" % (what, a, b), config=self.config)

    def native_input(self, rows, sparse=False):
        if self.column_kinds == {"number"}:
            return np.array(rows, dtype=float)
        return super().native_input(rows, sparse)


CATEGORY_POOLS = {
    "str": ["a", "b", "B", "", "é", "日本", "10", "9", "zz", " x", "None", "nan", "a ", "m", "n"],
    "int": [3, -1, 0, 10, 7, 100, -50, 2, 1, 42, 12, 13, 14, 15, 2 ** 40],
    "float": [0.5, -0.25, 1e10, 3.0, 0.1, 1e-8, -7.0, 2.0, 9.25, 11.0, 12.5, 13.0, 14.0, 15.5, 16.0],
    "bool": [True, False],
}


def make_encoder(ctx, kind=None, n_rows=None, unknown=False):
    """ columns hold strings, integers, floats or booleans; category counts differ """
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(["onehot", "ordinal"])
    d = ctx.size([1, 2, 3, 5], [1, 5, 70, 140])
    kinds = [rng.choice(["str", "str", "int", "float", "bool"]) for _ in range(d)]
    if rng.random() < 0.3:
        kinds = ["float"] * d
    counts, cats = [], []
    for ck in kinds:
        pool = CATEGORY_POOLS[ck]
        if ck == "str" and rng.random() < 0.4:
            pool = rng.sample(pool, rng.randint(1, len(pool)))
            pool = list(dict.fromkeys(pool + [data.relative(rng, rng.choice(pool)) for _ in range(6)]))
        if ctx.big and ck != "bool" and d < 10:
            more = rng.choice([40, 300, 1500])
            pool = pool + [v for v in {"str": ["c%d" % i for i in range(more)], "int": range(more), "float": [i / 8.0 for i in range(more)]}[ck]
                           if v not in pool]
        c = rng.randint(1, min(len(pool), ctx.size([2, 5, 15], [15, 2000])))
        cats.append(rng.sample(pool, c))
    n = max(map(len, cats)) + rng.randint(0, 10)
    numbers = all(k == "float" for k in kinds)
    cols = []
    for c in cats:
        col = list(c) + [rng.choice(c) for _ in range(n - len(c))]
        rng.shuffle(col)
        cols.append(col)
    X = np.empty((n, d), dtype=object)
    for j, col in enumerate(cols):
        for i, v in enumerate(col):
            X[i, j] = v
    if numbers:
        X = X.astype(float)
    kw = {}
    explicit = rng.random() < 0.35
    if explicit:
        # the order given by the user is the order of the codes (numbers must be sorted)
        given = []
        for c, ck in zip(cats, kinds):
            extra = [v for v in CATEGORY_POOLS[ck] if v not in c]
            extra = rng.sample(extra, min(1, len(extra)))
            c = list(c) + extra
            if numbers:
                c = sorted(c)
            else:
                rng.shuffle(c)
            given.append(c)
            if not numbers and ck in ("str", "int") and rng.random() < 0.3:
                # categories which differ in their type only
                c += [v for v in ([1, "1", "True", "None"] if ck == "int" else ["1", 1, 0, "0"]) if v not in c]
        kw["categories"] = given
    if kind == "onehot":
        kw["handle_unknown"] = rng.choice(["ignore", "ignore", "error"])
        kw["sparse"] = rng.random() < 0.6
    dtype = rng.choice([np.float64, np.float64, np.float32, np.int64, np.int32, float, int])
    kw["dtype"] = dtype
    est = (OneHotEncoder if kind == "onehot" else OrdinalEncoder)(**kw)
    fit_or_skip(est, X)
    m = n_rows or ctx.size([1, 3, 12], [12, 1000])
    known = [c.tolist() if hasattr(c, "tolist") else list(c) for c in est.categories_]
    rows = []
    n_unknown = 0
    allow_unknown = kw.get("handle_unknown") == "ignore"
    for _ in range(m):
        row = []
        for j in range(d):
            v = rng.choice(known[j])
            if allow_unknown and rng.random() < 0.3:
                near = [data.relative(rng, v)] if kinds[j] == "str" and isinstance(v, str) else []
                v = rng.choice(CATEGORY_POOLS[kinds[j]] + near * 12 + (["unseen", "zzz"] if kinds[j] == "str" else [77777]))
                if kinds[j] == "float":
                    v = float(v)
                if v not in known[j]:
                    n_unknown += 1
            if type(v) in (int, bool) and rng.random() < 0.2:
                v = rng.choice([float, int])(v)  # equal, hence the same category
            elif type(v) is float and v.is_integer() and rng.random() < 0.2:
                v = int(v)
            if v == 0 and type(v) is float and rng.random() < 0.3:
                v = -0.0
            row.append(v)
        rows.append(row)
    config = {
        "kind": kind, "columns": kinds, "counts": [len(c) for c in known], "explicit": explicit,
        "handle_unknown": kw.get("handle_unknown"), "sparse": kw.get("sparse"), "dtype": getattr(dtype, "__name__", str(dtype)),
    }
    s = EncoderSubject(
        ctx, type(est).__name__, est, rows, ["transform"], config, n_unknown=n_unknown,
        column_kinds={"number"} if numbers else {"object"}, known=known,
    )
    return s


# ------------------------------------------------------------------ imputers

IMPUTER_KINDS = ("nan", "marker", "string", "none", "indicator")


class ImputerSubject(Subject):
    rtol = 1e-15
    atol = 0.0
    object_rows = False

    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "family": self.family}
        got = out
        compare_matrix(ctx, what, got, ref, rtol=0.0, atol=0.0, **det)
        ctx.state(repr(sorted(self.config.items(), key=str)), [
            tuple(int(self.is_marker(v)) for v in row) for row in rows[:3]])

    def is_marker(self, v):
        m = self.marker
        if m is None:
            return v is None
        if m != m:
            return v != v
        return v == m


def make_imputer(ctx, kind=None, n_rows=None, new_missing=False):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(IMPUTER_KINDS)
    n, d = rng.choice([2, 5, 20]), ctx.size([1, 2, 4, 7, 12, 40], [4, 300, 1100])
    strings = kind in ("string", "none") or (kind == "nan" and rng.random() < 0.2)
    marker = {
        "nan": float("nan"), "marker": rng.choice([-1, 0, -1.0, 0.0, 999, 2.5, -7]),
        "string": rng.choice(["", "missing", "?"]), "none": None,
        "indicator": rng.choice([float("nan"), float("nan"), -1, 0, 0.0]),
    }[kind]
    if strings:
        pool = ["a", "b", "ü", "0", "zz", "Missing"]
        X = np.empty((n, d), dtype=object)
        for i in range(n):
            for j in range(d):
                X[i, j] = rng.choice(pool)
    else:
        X = data.matrix(ctx, n, d, rng.choice(("int", "grid", "gauss", "binary")))
    pattern = rng.choice(["random", "some_columns", "full_column", "none", "dense"])
    mask = r.rand(n, d) < {"dense": 0.8, "none": 0.0}.get(pattern, 0.3)
    if pattern == "some_columns":
        mask &= (r.rand(d) < 0.5)[None, :]
    if pattern == "full_column":
        mask[:, rng.randrange(d)] = True
    Xm = X.copy()
    for i, j in zip(*np.nonzero(mask)):
        Xm[i, j] = marker
    config = {"kind": kind, "marker": repr(marker), "pattern": pattern, "features": d, "strings": strings}
    if kind == "indicator" and not strings:
        kw = {
            "missing_values": marker, "features": rng.choice(["missing-only", "all"]),
            "error_on_new": rng.random() < 0.5,
        }
        est = MissingIndicator(**kw)
    else:
        strategy = rng.choice(["most_frequent", "constant"]) if strings else rng.choice(
            ["mean", "median", "most_frequent", "constant"])
        kw = {"missing_values": marker, "strategy": strategy, "add_indicator": rng.random() < 0.35}
        if strategy == "constant" and rng.random() < 0.7:
            kw["fill_value"] = "FILL" if strings else rng.choice([0, -3, 2.5, 7])
        est = SimpleImputer(**kw)
    if strings and est.strategy == "most_frequent":
        # the installed scipy no longer finds the mode of strings: fit by hand
        est.strategy = "constant"
        fit_or_skip(est, Xm)
        est.strategy = "most_frequent"
        stats = np.empty(d, dtype=object)
        for j in range(d):
            seen = sorted(X[i, j] for i in range(n) if not mask[i, j])
            stats[j] = max(seen, key=seen.count) if seen else np.nan
        est.statistics_ = stats
    else:
        fit_or_skip(est, Xm)
    config.update({k: v for k, v in kw.items() if k != "missing_values"})
    m = n_rows or ctx.size([1, 3, 12], [3, 40, 600])
    rows = []
    fitted = getattr(est, "features_", None)
    may = set(range(d))
    if isinstance(est, MissingIndicator) and est.error_on_new and est.features == "missing-only" and not new_missing:
        may = set(est.features_.tolist())
    for i in range(m):
        row = X[rng.randrange(n)].tolist() if rng.random() < 0.7 or strings else data.matrix(ctx, 1, d)[0].tolist()
        p = rng.choice([0.0, 0.3, 0.7, 1.0])
        for j in range(d):
            if not strings and not (marker != marker) and row[j] == marker and j not in may:
                row[j] = float(row[j]) + 1.0
            if j in may and rng.random() < p:
                row[j] = marker
                if not strings:
                    row[j] = float(marker)
            elif rng.random() < 0.05 and not strings and j in may:
                # values one step beside the marker are not missing
                if marker == marker:
                    row[j] = float(np.nextafter(float(marker), rng.choice([-9e9, 9e9])))
        rows.append(row)
    return ImputerSubject(
        ctx, type(est).__name__, est, rows, ["transform"], config, object_rows=strings, marker=marker,
    )
