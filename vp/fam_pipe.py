""" Pipelines and feature unions, nested, over every kind of input """

import warnings

import numpy as np
import scipy.sparse as sp
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import (
    BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier,
)
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import (
    CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer,
)
from sklearn.impute import MissingIndicator, SimpleImputer
from sklearn.linear_model import (
    LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier,
)
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
from sklearn.pipeline import FeatureUnion, Pipeline
from sklearn.preprocessing import (
    MaxAbsScaler, MinMaxScaler, Normalizer, OneHotEncoder, OrdinalEncoder, StandardScaler,
)
from sklearn.svm import LinearSVC
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier

from . import data, fam_text
from .core import Skip, call
from .subject import Subject, compare_matrix, fit_or_skip, is_sparse, native_list, pure_list

METHODS = ("predict", "predict_proba", "predict_log_proba", "transform")
DOMAINS = ("matrix", "docs", "dicts", "objects")


# ------------------------------------------------------------- random shapes
# a builder returns (native estimator, domain of its result); result domains
# are "dense", "missing" (dense with NaN), "counts" and "sparse"


def _name(ctx):
    return ctx.rng.choice(["a", "b", "step", "x_y", "é", "1", "Scale"]) + str(ctx.rng.randrange(10 ** 6))


def _once(ctx, sizes):
    """ only one level of a big case has many parts (widths multiply) """
    first, ctx.built = not getattr(ctx, "built", False), True
    return sizes if first else [1, 2]


def build_pipeline(ctx, domain, depth):
    steps, out = [], domain
    for _ in range(ctx.size([1, 1, 2, 3], _once(ctx, [1, 2, 12]))):
        est, out = build_transformer(ctx, out, depth)
        steps.append((_name(ctx), est))
    return Pipeline(steps), out


def build_union(ctx, domain, depth):
    rng = ctx.rng
    parts, outs = [], []
    for _ in range(ctx.size([1, 2, 2, 3], _once(ctx, [2, 3, 14]))):
        est, out = build_transformer(ctx, domain, depth)
        parts.append((_name(ctx), est))
        outs.append(out)
    weights = None
    if rng.random() < 0.5:
        names = [n for n, _ in parts if rng.random() < 0.7]
        weights = {n: rng.choice([2, 0.5, -1.5, 0.0, 1.0, 3, 10]) for n in names}
    ctx.shape.append("union%d%s" % (len(parts), "w" if weights else ""))
    if weights:
        ctx.event("weighted_unions")
    kinds = {"sparse" if o in ("sparse", "counts") else "dense" for o in outs}
    if kinds == {"sparse", "dense"}:
        ctx.event("mixed_unions")
    out = "sparse" if "sparse" in kinds else "missing" if "missing" in outs else "dense"
    return FeatureUnion(parts, transformer_weights=weights), out


def build_transformer(ctx, domain, depth):
    rng, u = ctx.rng, ctx.rng.random()
    if depth > 0 and u < 0.3:
        return build_union(ctx, domain, depth - 1)
    if depth > 0 and u < 0.45:
        ctx.shape.append("sub")
        return build_pipeline(ctx, domain, depth - 1)
    est, out = build_leaf(ctx, domain)
    ctx.shape.append(type(est).__name__)
    return est, out


def build_leaf(ctx, domain):
    rng = ctx.rng
    if domain == "docs":
        analyzer = rng.choice(["word", "word", "char", "char_wb"])
        kw = {"analyzer": analyzer, "lowercase": rng.random() < 0.7, "ngram_range": rng.choice([(1, 1), (1, 2), (2, 3)]),
              "binary": rng.random() < 0.2}
        if analyzer == "word":
            kw["token_pattern"] = r"(?u)\b\w+\b"
        u = rng.random()
        if u < 0.4:
            return CountVectorizer(**kw), "counts"
        if u < 0.75:
            return TfidfVectorizer(sublinear_tf=rng.random() < 0.3, norm=rng.choice(["l2", "l1", None]), **kw), "sparse"
        return HashingVectorizer(n_features=rng.choice([5, 64]), norm=rng.choice([None, "l2"]), **kw), "sparse"
    if domain == "dicts":
        sparse = rng.random() < 0.6
        return DictVectorizer(sparse=sparse, sort=rng.random() < 0.8), "sparse" if sparse else "dense"
    if domain == "objects":
        if rng.random() < 0.6:
            sparse = rng.random() < 0.6
            return OneHotEncoder(handle_unknown="ignore", sparse=sparse), "sparse" if sparse else "dense"
        return OrdinalEncoder(), "dense"
    if domain == "missing":
        u = rng.random()
        if u < 0.75:
            return SimpleImputer(strategy=rng.choice(["mean", "median", "most_frequent", "constant"]),
                                 add_indicator=rng.random() < 0.3), "dense"
        return MissingIndicator(features="all"), "dense"
    if domain == "counts":
        u = rng.random()
        if u < 0.6:
            return TfidfTransformer(use_idf=rng.random() < 0.7, norm=rng.choice(["l2", None])), "sparse"
        domain = "sparse"
    if domain == "sparse":
        return rng.choice([
            lambda: Normalizer(norm=rng.choice(["l1", "l2", "max"])), MaxAbsScaler, lambda: StandardScaler(with_mean=False),
        ])(), "sparse"
    return rng.choice([
        lambda: Normalizer(norm=rng.choice(["l1", "l2", "max"])), MaxAbsScaler, StandardScaler,
        lambda: StandardScaler(with_mean=False), lambda: MinMaxScaler(feature_range=rng.choice([(0, 1), (-2, 3)])),
        lambda: SimpleImputer(missing_values=0.0, strategy=rng.choice(["constant", "mean"]), add_indicator=False),
    ])(), "dense"


def build_final(ctx, domain):
    rng = ctx.rng
    sparse = domain in ("sparse", "counts")
    seed = rng.randrange(1000)
    pool = [
        lambda: LogisticRegression(max_iter=200, solver="lbfgs", multi_class=rng.choice(["ovr", "multinomial"])),
        lambda: LogisticRegression(solver="liblinear"),
        lambda: RidgeClassifier(), lambda: LinearSVC(random_state=seed, max_iter=300),
        lambda: SGDClassifier(loss=rng.choice(["hinge", "log"]), random_state=seed, max_iter=20),
        lambda: Perceptron(random_state=seed, max_iter=20), lambda: PassiveAggressiveClassifier(random_state=seed, max_iter=20),
        lambda: DecisionTreeClassifier(max_depth=rng.choice([1, 4, None]), random_state=seed),
        lambda: ExtraTreeClassifier(max_depth=5, random_state=seed),
        lambda: RandomForestClassifier(n_estimators=5, max_depth=4, random_state=seed),
        lambda: ExtraTreesClassifier(n_estimators=4, max_depth=4, random_state=seed),
        lambda: BaggingClassifier(n_estimators=3, max_features=0.7, random_state=seed),
        lambda: DummyClassifier(strategy="prior"),
    ]
    if not sparse:
        pool += [
            lambda: GradientBoostingClassifier(n_estimators=4, max_depth=2, random_state=seed),
            GaussianNB, lambda: DecisionTreeRegressor(max_depth=4, random_state=seed),
        ]
    if domain == "positive":
        pool += [MultinomialNB, ComplementNB] * 4
    return rng.choice(pool)()


# ------------------------------------------------------------------- subject


class PipeSubject(Subject):
    rtol, atol = 1e-9, 1e-9
    tie = 1e-7

    def features(self, rows):
        """ what the native final step sees """
        X = self.native_input(rows)
        for _, t in self.native.steps[:-1]:
            X = t.transform(X)
        return X

    def native_input(self, rows, sparse=False):
        if self.domain == "objects":
            X = np.empty((len(rows), len(rows[0])), dtype=object)
            for i, r in enumerate(rows):
                X[i, :] = r
            return X
        return super().native_input(rows, sparse)

    def sensitivity(self, method, rows, ref):
        """
        How much the native answer of each row moves when the final step's
        input moves by rounding (a tree may put a scaled value on the other
        side of a threshold): None if a label changes or it moves a lot.
        """
        F = self.features(rows)
        final = self.native.steps[-1][1]
        out = [0.0] * len(rows)
        rs = np.random.RandomState(5)
        for f in (1 + 1e-11, 1 - 1e-11, None, None):
            G = F.copy()
            if sp.issparse(G):
                G.data = G.data * (1 + 1e-11 * rs.choice([-1, 1], len(G.data)) if f is None else f)
            elif G.dtype.kind == "f":
                G = G * (f if f is not None else 1 + 1e-11 * rs.choice([-1, 1], G.shape))
                # what rounds to zero, or nearly so, may go either way
                G = G + 1e-14 * rs.choice([-1, 1], G.shape)
            for i, (a, b) in enumerate(zip(native_list(getattr(final, method)(G)), ref)):
                a, b = (a, b) if isinstance(a, list) else ([a], [b])
                for x, y in zip(a, b):
                    if out[i] is None or x == y:
                        continue
                    if isinstance(x, float) and isinstance(y, float) and abs(x - y) < 1e-5:
                        out[i] = max(out[i], abs(x - y))
                    elif method != "predict_log_proba" or max(x, y) > -25:
                        out[i] = None
        return out

    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "family": self.family}
        if method == "transform":
            native_sparse = sp.issparse(self.native.transform(self.native_input(rows)))
            ctx.require(
                is_sparse(out) == native_sparse,
                "%s: result is %s, the native one %s" % (what, *(("dense", "sparse")[bool(b)] for b in (is_sparse(out), native_sparse))),
                **det
            )
            width = len(ref[0])
            got = pure_list(ctx, out, width, what)
            scale = max([1.0] + [abs(v) for r in ref for v in r if v == v])
            compare_matrix(ctx, what, got, ref, rtol=1e-9, atol=1e-12 * scale, **det)
            ctx.state(self.config["shape"], width, len(rows))
            return
        ctx.require(
            isinstance(out, list) and len(out) == len(ref), "%s: %s answers for %d rows" % (what, len(out), len(ref)), **det
        )
        moves = self.sensitivity(method, rows, ref)
        keep = [i for i, b in enumerate(moves) if b is not None]
        tols = [1e-9 + 50 * moves[i] for i in keep]
        final = self.native.steps[-1][1]
        if isinstance(final, GaussianNB) and keep:
            # sums of large squares cancel
            jll = np.abs(final._joint_log_likelihood(self.features([rows[i] for i in keep]))).max(axis=1)
            tols = [t + 1e-14 * v for t, v in zip(tols, jll)]
        ctx.event("rows_unstable_natively", len(rows) - len(keep))
        got, ref = [out[i] for i in keep], [ref[i] for i in keep]
        if not keep:
            return
        if method == "predict" and self.classifier:
            scores = self.native_scores([rows[i] for i in keep])
            for i, (g, r) in enumerate(zip(got, ref)):
                ctx.require(
                    type(g) is type(r) and (g == r or (scores is not None and scores[i] < 1e-7)),
                    "%s: row %d has label %r, native %r" % (what, keep[i], g, r), row=rows[keep[i]], **det
                )
        elif method == "predict_log_proba":
            for g, r, t in zip(got, ref, tols):
                compare_matrix(
                    ctx, what, [g], [r], rtol=1e-6, tol=lambda i, j: t + 1e-6 if r[j] > -25 else 1e300, **det
                )
        else:
            compare_matrix(ctx, what, got, ref, rtol=1e-9, tol=lambda i, j: tols[i], **det)
        ctx.state(self.config["shape"], method, sorted(map(repr, set(map(repr, got))))[:6])

    def native_scores(self, rows):
        """ per row: the gap between the best and the second best native score """
        for name in ("predict_proba", "decision_function"):
            f = getattr(self.native, name, None)
            if f is None:
                continue
            s = np.asarray(f(self.native_input(rows)))
            if s.ndim == 1:
                return np.abs(s).tolist()
            if s.shape[1] == 1:
                return [1.0] * len(rows)
            s = np.sort(s, axis=1)
            return (s[:, -1] - s[:, -2]).tolist()
        return None


def make_inputs(ctx, domain, n, m):
    """ training inputs, rows to predict """
    rng, r = ctx.rng, ctx.np
    if domain in ("matrix", "missing", "positive"):
        d = ctx.size([1, 2, 4, 7], [4, 7, 60])
        mode = rng.choice(("gauss", "grid", "int", "sparse", "const"))
        X = data.matrix(ctx, n + m, d, mode)
        if domain == "positive":
            X = np.abs(X)
        if domain == "missing":
            X[r.rand(*X.shape) < 0.2] = np.nan
            X[0] = np.arange(d)
        X = X.tolist()
    elif domain == "docs":
        X = data.corpus(ctx, n + m)
        X = [x if x.strip() else "the good word" for x in X[:n]] + X[n:]
    elif domain == "dicts":
        names, values = fam_text.NAMES, fam_text.VALUES
        X = [fam_text.mapping(ctx, names, values) for _ in range(n)]
        X += [fam_text.mapping(ctx, names + ["unseen", "age "], values + ["rome", "r", "Rome "]) for _ in range(m)]
        X[0]["age"] = 3
        # (natively, two entries of one sparse row in the same column are scaled and normalised apart)
        X = [{k: v for k, v in row.items() if k not in ("x=1", "city=Rome")} for row in X]
    else:
        d = rng.choice([1, 2, 3])
        pools = [rng.sample(["a", "b", "c", "é", "日本", "", "10", "9"], rng.choice([1, 2, 5])) for _ in range(d)]
        X = [[rng.choice(p) for p in pools] for _ in range(n + m)]
        for i in range(max(map(len, pools))):
            X[i] = [p[i % len(p)] for p in pools]
        for p, j in zip(pools, range(d)):
            for i in range(n, n + m):
                if rng.random() < 0.15 and getattr(ctx, "unknown_ok", False):
                    X[i][j] = "unseen"
    return X[:n], X[n:]


def has_type(est, cls):
    if isinstance(est, cls):
        return True
    for name in ("steps", "transformer_list"):
        if any(has_type(e, cls) for _, e in getattr(est, name, [])):
            return True
    return False


def make_pipe(ctx, kind=None, n_rows=None, final=None):
    """ kind: pipeline (ends in a predictor), transform (pipeline), union """
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(["pipeline", "pipeline", "transform", "union"])
    domain = rng.choice(["matrix", "matrix", "missing", "positive", "docs", "docs", "dicts", "objects"])
    ctx.shape = []
    depth = ctx.size([0, 1, 2, 3], [1, 2, 3])
    start = {"positive": "matrix", "missing": "missing"}.get(domain, domain)
    start = "dense" if start == "matrix" else start
    if kind == "union":
        est, out = build_union(ctx, start, depth)
    elif domain == "positive":
        est, out = Pipeline([("scale", rng.choice([MaxAbsScaler, MinMaxScaler])())]), "positive"
        ctx.shape.append("scale")
    else:
        est, out = build_pipeline(ctx, start, depth)
        if out == "missing" and kind == "pipeline":
            est.steps.append(("impute", SimpleImputer()))
            out = "dense"
    k = rng.choice([2, 2, 3, 5])
    n, m = max(ctx.size([12, 30], [30, 150]), 3 * k), n_rows or ctx.size([1, 4, 12], [4, 12, 300])
    ctx.unknown_ok = not has_type(est, OrdinalEncoder)
    train, rows = make_inputs(ctx, domain, n, m)
    if rng.random() < 0.5:
        rows[: m // 2] = [train[rng.randrange(n)] for _ in range(m // 2)]
    y = r.randint(0, k, n)
    y[:k] = np.arange(k)
    if domain in ("matrix", "positive"):
        y = data.signal_labels(ctx, np.array(train), k)
    lk, vals = data.label_values(ctx, k)
    Y = data.label_array(lk, vals, y)
    classifier = False
    methods = ["transform"]
    if kind == "pipeline":
        fin = (final or build_final)(ctx, out)
        ctx.shape.append(type(fin).__name__)
        est.steps.append(("final", fin))
        classifier = not isinstance(fin, DecisionTreeRegressor)
        if not classifier:
            Y = y * 1.5
        methods = None
    s0 = PipeSubject.__new__(PipeSubject)
    s0.domain = {"positive": "matrix", "missing": "matrix"}.get(domain, domain)
    s0.kind = "matrix" if s0.domain == "objects" else s0.domain
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            fit_or_skip(est, s0.native_input(train), Y)
    if kind == "pipeline" and isinstance(fin, GaussianNB) and not fin.sigma_.min() > 0:
        raise Skip("no variance at all: native posteriors are undefined")
    if methods is None:
        methods = [m for m in METHODS[:3] if hasattr(est, m)]
    config = {"kind": kind, "domain": domain, "shape": " ".join(ctx.shape), "labels": lk, "classes": k}
    s = PipeSubject(ctx, type(est).__name__, est, rows, methods, config, domain=s0.domain, kind=s0.kind, classifier=classifier)
    return s
