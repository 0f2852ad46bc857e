"""
Native models of every configuration, supported or not.  A builder returns
(native model, kind of input, rows, reason why converting must be refused or
None, configuration).
"""

import importlib
import inspect
import os
import pkgutil
import warnings

import numpy as np
import scipy.sparse as sp

from . import data
from .core import Skip
from .subject import fit_or_skip

# documented or stated in the error messages of the package
MAPPED = {
    "LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC",
    "DecisionTreeClassifier", "DecisionTreeRegressor", "ExtraTreeClassifier", "ExtraTreeRegressor",
    "RandomForestClassifier", "BaggingClassifier", "GradientBoostingClassifier", "XGBClassifier", "ExtraTreesClassifier",
    "GaussianNB", "MultinomialNB", "ComplementNB", "SimpleImputer", "MissingIndicator", "DummyClassifier", "Pipeline",
    "FeatureUnion", "OneHotEncoder", "OrdinalEncoder", "StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer",
    "DictVectorizer", "TfidfVectorizer", "CountVectorizer", "TfidfTransformer", "HashingVectorizer",
}


def all_native_classes():
    """ every importable estimator class of scikit-learn """
    import sklearn
    from sklearn.base import BaseEstimator

    found = {}
    for info in pkgutil.walk_packages(sklearn.__path__, "sklearn.", onerror=lambda name: None):
        if ".tests" in info.name or "externals" in info.name or "conftest" in info.name or "setup" in info.name:
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                module = importlib.import_module(info.name)
        except BaseException:
            continue
        for name, cls in vars(module).items():
            if inspect.isclass(cls) and issubclass(cls, BaseEstimator) and not inspect.isabstract(cls):
                if cls.__module__.startswith("sklearn") and not name.startswith("_"):
                    found[cls.__name__] = cls
    return found


def _xy(ctx, k=None, modes=("gauss", "grid", "int", "sparse", "binary"), outputs=1):
    rng = ctx.rng
    k = k or rng.choice([2, 2, 3, 4])
    d = rng.choice([1, 2, 4, 7])
    X = data.matrix(ctx, 40, d, rng.choice(modes))
    y = data.signal_labels(ctx, X, k)
    rows = [X[rng.randrange(40)].tolist() for _ in range(4)] + data.matrix(ctx, 4, d, rng.choice(modes)).tolist()
    return X, y, rows, k


def _labels(ctx, y, k):
    kind, vals = data.label_values(ctx, k)
    return data.label_array(kind, vals, y)


def _pick(ctx, **options):
    """ each option with its default (the first value) half of the time """
    out = {}
    for name, values in options.items():
        if ctx.rng.random() < 0.5:
            out[name] = ctx.rng.choice(values)
    return out


def linear(ctx):
    from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
    from sklearn.svm import LinearSVC

    rng = ctx.rng
    X, y, rows, k = _xy(ctx)
    Y = _labels(ctx, y, k)
    cw = [None, "balanced"]
    which = rng.choice(["lr", "lr", "sgd", "sgd", "ridge", "perceptron", "pa", "svc"])
    if which == "lr":
        kw = _pick(
            ctx, penalty=["l1", "l2", "elasticnet", "none"], C=[0.1, 10.0], solver=["newton-cg", "lbfgs", "liblinear", "sag", "saga"],
            multi_class=["ovr", "multinomial", "auto"], fit_intercept=[False], class_weight=cw, intercept_scaling=[3.0],
            dual=[True], l1_ratio=[0.3], warm_start=[True],
        )
        est = LogisticRegression(max_iter=20, random_state=0, **kw)
    elif which == "sgd":
        kw = _pick(
            ctx, loss=["hinge", "log", "modified_huber", "squared_hinge", "perceptron", "squared_loss", "huber",
                       "epsilon_insensitive", "squared_epsilon_insensitive"],
            penalty=["l2", "l1", "elasticnet"], average=[True, 5], class_weight=cw, early_stopping=[True], fit_intercept=[False],
            learning_rate=["constant", "invscaling", "adaptive"], eta0=[0.1],
        )
        kw.setdefault("eta0", 0.01)
        est = SGDClassifier(max_iter=5, tol=None, random_state=0, **kw)
    elif which == "ridge":
        kw = _pick(ctx, alpha=[0.1, 10.0], normalize=[True], class_weight=cw, fit_intercept=[False], solver=["svd", "lsqr", "cholesky"])
        est = RidgeClassifier(**kw)
        if rng.random() < 0.25:
            kw["multilabel"] = True
            Y = (ctx.np.rand(len(X), rng.choice([2, 3])) < 0.5).astype(int)
    elif which == "perceptron":
        kw = _pick(ctx, penalty=["l1", "l2"], class_weight=cw, fit_intercept=[False], eta0=[0.5])
        est = Perceptron(max_iter=5, tol=None, **kw)
    elif which == "pa":
        kw = _pick(ctx, C=[0.1], loss=["squared_hinge"], average=[True], class_weight=cw, fit_intercept=[False])
        est = PassiveAggressiveClassifier(max_iter=5, tol=None, **kw)
    else:
        kw = _pick(
            ctx, loss=["hinge"], penalty=["l1"], dual=[False], multi_class=["crammer_singer"], fit_intercept=[False],
            class_weight=cw, intercept_scaling=[2.0],
        )
        est = LinearSVC(max_iter=50, random_state=0, **kw)
    fit_or_skip(est, X, Y)
    if rng.random() < 0.15 and hasattr(est, "sparsify"):
        est.sparsify()
        kw["sparsify"] = True
    return est, "matrix", rows, None, dict(kw, est=which)


def tree(ctx):
    from sklearn.ensemble import ExtraTreesClassifier, RandomForestClassifier
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor

    rng = ctx.rng
    X, y, rows, k = _xy(ctx)
    must = None
    cls = rng.choice([
        DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier, ExtraTreeRegressor, RandomForestClassifier,
        ExtraTreesClassifier,
    ])
    regress = cls in (DecisionTreeRegressor, ExtraTreeRegressor)
    kw = _pick(
        ctx, criterion=["mse", "friedman_mse", "mae"] if regress else ["gini", "entropy"], max_depth=[1, 3], max_features=[1, "sqrt"],
        min_samples_leaf=[3], max_leaf_nodes=[4], min_impurity_decrease=[0.01], ccp_alpha=[0.01],
    )
    if not regress:
        kw.update(_pick(ctx, class_weight=["balanced"]))
    if cls in (RandomForestClassifier, ExtraTreesClassifier):
        kw.update(_pick(ctx, bootstrap=[True, False], warm_start=[True]), n_estimators=rng.choice([1, 3]))
    Y = ctx.np.randn(len(X)) * rng.choice([1.0, 1e4]) if regress else _labels(ctx, y, k)
    if rng.random() < 0.35:
        # several outputs, possibly with equal numbers of classes
        other = ctx.np.randn(len(X)) if regress else data.signal_labels(ctx, -X, rng.choice([2, k]))
        Y = np.stack([Y if regress else y, other], axis=1)
        must = "multi-output tree"
    elif rng.random() < 0.2:
        Y = np.asarray(Y).reshape(-1, 1)
    est = fit_or_skip(cls(random_state=rng.randrange(99), **kw), X, Y)
    return est, "matrix", rows, must, dict(kw, est=cls.__name__, outputs=np.asarray(Y).shape)


def boosting(ctx):
    from sklearn.dummy import DummyClassifier
    from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.tree import DecisionTreeClassifier

    rng = ctx.rng
    X, y, rows, k = _xy(ctx)
    kw = _pick(
        ctx, loss=["exponential"], learning_rate=[0.5, 1.0], subsample=[0.6], criterion=["mse", "friedman_mse"], max_features=[1],
        n_iter_no_change=[2], warm_start=[True], max_leaf_nodes=[3], ccp_alpha=[0.01], min_impurity_decrease=[0.01],
    )
    init = rng.choice([
        None, None, "zero", "zero", LogisticRegression(max_iter=20), DecisionTreeClassifier(max_depth=2), KNeighborsClassifier(3),
        RandomForestClassifier(2), DummyClassifier(strategy="stratified", random_state=1), DummyClassifier(strategy="most_frequent"),
        DummyClassifier(strategy="uniform", random_state=1), DummyClassifier(strategy="prior"),
    ])
    must = None
    if isinstance(init, KNeighborsClassifier):
        must = "init estimator without counterpart"
    if isinstance(init, DummyClassifier) and init.strategy != "prior":
        must = "init dummy strategy"
    est = GradientBoostingClassifier(
        n_estimators=rng.choice([1, 4]), max_depth=rng.choice([1, 3]), init=init, random_state=0, **kw
    )
    fit_or_skip(est, X, _labels(ctx, y, k))
    return est, "matrix", rows, must, dict(kw, init=repr(init), k=k)


class NativeGB:
    """ the native answer row by row: with a custom init it mixes up rows of a batch """

    def __init__(self, est):
        self.est, self.classes_ = est, est.classes_

    def __getattr__(self, name):
        method = getattr(self.est, name)
        return lambda X: np.concatenate([method(X[i:i + 1]) for i in range(len(X))])


def bagging(ctx):
    from sklearn.discriminant_analysis import LinearDiscriminantAnalysis
    from sklearn.ensemble import BaggingClassifier, GradientBoostingClassifier, RandomForestClassifier
    from sklearn.linear_model import LogisticRegression, Perceptron, RidgeClassifier, SGDClassifier
    from sklearn.naive_bayes import BernoulliNB, GaussianNB, MultinomialNB
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.pipeline import Pipeline, make_pipeline
    from sklearn.preprocessing import MinMaxScaler, RobustScaler, StandardScaler
    from sklearn.svm import SVC, LinearSVC
    from sklearn.tree import DecisionTreeClassifier

    rng = ctx.rng
    X, y, rows, k = _xy(ctx, modes=("gauss", "grid"))
    base = rng.choice([
        (None, None), (DecisionTreeClassifier(max_depth=3), None), (LogisticRegression(max_iter=20), None),
        (make_pipeline(StandardScaler(), LogisticRegression(max_iter=20)), None), (RandomForestClassifier(2), None),
        (GradientBoostingClassifier(n_estimators=2), None), (GaussianNB(), None),
        (make_pipeline(MinMaxScaler(), DecisionTreeClassifier(max_depth=2)), None),
        (BaggingClassifier(n_estimators=2), None), (SGDClassifier(loss="log", max_iter=5, tol=None), None),
        (Perceptron(max_iter=5, tol=None), None), (LinearSVC(max_iter=50), None), (RidgeClassifier(), None),
        (SGDClassifier(loss="hinge", max_iter=5, tol=None), None),
        (SGDClassifier(loss="modified_huber", max_iter=5, tol=None), None),
        (KNeighborsClassifier(3), "member without counterpart"), (SVC(), "member without counterpart"),
        (BernoulliNB(), "member without counterpart"), (LinearDiscriminantAnalysis(), "member without counterpart"),
        (make_pipeline(RobustScaler(), LogisticRegression()), "member without counterpart"),
    ])
    kw = _pick(
        ctx, max_samples=[0.3, 5], max_features=[0.5, 1], bootstrap=[False], bootstrap_features=[True], oob_score=[True],
        warm_start=[True],
    )
    est = BaggingClassifier(base[0], n_estimators=rng.choice([1, 4]), random_state=rng.randrange(99), **kw)
    fit_or_skip(est, X, _labels(ctx, y, k))
    return est, "matrix", rows, base[1], dict(kw, base=repr(base[0]), k=k)


def xgb(ctx):
    import xgboost

    rng = ctx.rng
    must = None
    X, y, rows, k = _xy(ctx, modes=("gauss", "grid", "int"))
    objective = rng.choice([
        "binary:logistic", "multi:softprob", "multi:softmax", "binary:logitraw", "binary:hinge", "reg:squarederror",
        "reg:logistic", "count:poisson", "rank:pairwise", "callable",
    ])
    multilabel = rng.random() < 0.12
    if multilabel:
        objective = "binary:logistic"
    if objective.startswith("binary") and k > 2:
        y = y % 2
        k = 2
    elif objective.startswith("multi") and k == 2:
        y = np.arange(len(y)) % 3
        k = 3
    booster = "gbtree" if multilabel else rng.choice(["gbtree", "gbtree", "gbtree", "dart", "gblinear"])
    kw = _pick(
        ctx, tree_method=["exact", "hist", "approx"], num_parallel_tree=[2], subsample=[0.7], colsample_bytree=[0.6],
        reg_alpha=[1.0], gamma=[0.5], grow_policy=["lossguide"], base_score=[0.2, 0.9], scale_pos_weight=[3.0],
        missing=[0.0, -1.0], learning_rate=[1.0], monotone_constraints=["(1)"], min_child_weight=[0.0],
    )
    if booster == "dart":
        kw["rate_drop"] = 0.5
    if booster == "gblinear":
        kw = {}
    if booster != "gbtree":
        must = "booster"
    if objective not in ("binary:logistic", "multi:softprob"):
        must = "objective"
    if objective == "callable":
        def logistic(labels, margin):
            p = 1.0 / (1.0 + np.exp(-margin))
            return p - labels, p * (1.0 - p)

        y, k = y % 2, 2
        est = xgboost.XGBClassifier(n_estimators=3, max_depth=2, booster=booster, objective=logistic, verbosity=0, n_jobs=1, **kw)
        fit_or_skip(est, X, y)
    else:
        est = xgboost.XGBClassifier(
            n_estimators=3, max_depth=2, booster=booster, objective=objective, verbosity=0, n_jobs=1, **kw
        )
        if multilabel:
            must = must or "multi-label"
            kw["multilabel"] = True
            fit_or_skip(est, X, np.stack([y, 1 - y, y], axis=1))
        else:
            fit_kw = {}
            if rng.random() < 0.3 and k == len(set(y[:30].tolist())):
                est.set_params(early_stopping_rounds=1, n_estimators=8)
                fit_kw = {"eval_set": [(X[:30], y[:30])], "verbose": False}
                kw["early_stopping"] = True
            fit_or_skip(est, X, y, **fit_kw)
        if est.objective != objective:
            # the native model corrects the number of classes by itself
            must = must if est.objective in ("binary:logistic", "multi:softprob") and booster != "gbtree" else None
            if est.objective not in ("binary:logistic", "multi:softprob"):
                must = "objective"
    return est, "matrix", rows, must, dict(kw, booster=booster, objective=objective, k=k)


def bayes(ctx):
    from sklearn.naive_bayes import BernoulliNB, CategoricalNB, ComplementNB, GaussianNB, MultinomialNB

    rng = ctx.rng
    which = rng.choice([GaussianNB, MultinomialNB, ComplementNB, MultinomialNB, ComplementNB, BernoulliNB, CategoricalNB])
    X, y, rows, k = _xy(ctx, modes=("gauss",))
    if which is not GaussianNB:
        X = data.counts(ctx, len(X), X.shape[1])
        rows = data.counts(ctx, 6, X.shape[1]).tolist()
        if which is CategoricalNB:
            rows = X[:5].tolist()
    if which is GaussianNB:
        kw = _pick(ctx, var_smoothing=[1e-3, 0.5], priors=[np.full(k, 1.0 / k)])
    elif which is CategoricalNB:
        kw = _pick(ctx, alpha=[0.3], fit_prior=[False])
    else:
        kw = _pick(ctx, alpha=[0.0, 0.3, 5.0], fit_prior=[False], class_prior=[[1.0 / k] * k])
        if which is ComplementNB:
            kw.update(_pick(ctx, norm=[True]))
    est = fit_or_skip(which(**kw), X, _labels(ctx, y, k))
    return est, "matrix", rows, None if which.__name__ in MAPPED else "no counterpart", dict(kw, est=which.__name__)


def dummy(ctx):
    from sklearn.dummy import DummyClassifier

    rng = ctx.rng
    X, y, rows, k = _xy(ctx)
    strategy = rng.choice(["warn", "prior", "stratified", "most_frequent", "uniform", "constant"])
    Y = _labels(ctx, y, k)
    kw = {"strategy": strategy, "random_state": rng.randrange(5)}
    if strategy == "warn":
        del kw["strategy"]
    must = None if strategy == "prior" else "dummy strategy"
    if strategy == "constant":
        kw["constant"] = Y.tolist()[rng.randrange(len(Y))]
    elif rng.random() < 0.3:
        Y = np.stack([y, y[::-1]], axis=1)
        must = must or "several outputs"
    est = fit_or_skip(DummyClassifier(**kw), X, Y)
    return est, "matrix", rows, must, kw


def encoders(ctx):
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder

    rng = ctx.rng
    d = rng.choice([1, 2, 3])
    values = rng.choice([["a", "b", "c"], [1.0, 2.0, 5.0], [0, 1, 7], ["", "x", "10"], [True, False]])
    rows = [[rng.choice(values) for _ in range(d)] for _ in range(12)]
    text = isinstance(values[0], str)
    X = np.array(rows, dtype=object if text else None)
    must = None
    kw = _pick(ctx, dtype=[int, np.float32, np.int32, float], categories=[[sorted(values)] * d])
    if rng.random() < 0.7:
        kw.update(_pick(ctx, sparse=[True, False], handle_unknown=["ignore", "error"]))
        if rng.random() < 0.5:
            kw["drop"] = rng.choice(["first", "first", "if_binary", [sorted(values)[1]] * d])
            must = "drop"
            kw.pop("handle_unknown", None)
        est = OneHotEncoder(**kw)
    else:
        est = OrdinalEncoder(**kw)
    fit_or_skip(est, X)
    test = [rng.choice(rows) for _ in range(4)]
    if rng.random() < 0.3:
        test[0] = list(test[0])
        test[0][0] = "unseen" if text else 99
    return est, "objects" if text else "matrix_any", test, must, dict(kw, est=type(est).__name__)


def preprocess(ctx):
    from sklearn.impute import MissingIndicator, SimpleImputer
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, StandardScaler

    rng = ctx.rng
    X, y, rows, k = _xy(ctx)
    which = rng.choice(["standard", "minmax", "maxabs", "norm", "imputer", "imputer", "indicator", "indicator"])
    if which == "standard":
        kw = _pick(ctx, with_mean=[False], with_std=[False], copy=[False])
        est = StandardScaler(**kw)
    elif which == "minmax":
        kw = _pick(ctx, feature_range=[(-1, 1), [0, 10], (0.25, 0.5)], copy=[False])
        est = MinMaxScaler(**kw)
    elif which == "maxabs":
        kw = _pick(ctx, copy=[False])
        est = MaxAbsScaler(**kw)
    elif which == "norm":
        kw = _pick(ctx, norm=["l1", "l2", "max"], copy=[False])
        est = Normalizer(**kw)
    else:
        mv = rng.choice([float("nan"), np.nan, np.float32("nan"), -1, 0, -1.0, 3])
        X, R = X.copy(), np.array(rows)
        for A in (X, R):
            A[ctx.np.rand(*A.shape) < 0.3] = mv
        rows = R.tolist()
        if which == "imputer":
            kw = _pick(
                ctx, strategy=["mean", "median", "most_frequent", "constant"], fill_value=[7, -1.5], add_indicator=[True], copy=[False],
            )
            est = SimpleImputer(missing_values=mv, **kw)
        else:
            kw = _pick(ctx, features=["all", "missing-only"], sparse=[True, False, "auto"], error_on_new=[False])
            est = MissingIndicator(missing_values=mv, **kw)
        kw["missing_values"] = mv
    fit_or_skip(est, X.copy())
    return est, "matrix", rows, None, dict(kw, est=which)


def _shout(doc):
    return doc.upper()


def _letters(doc):
    return list(doc)


def text(ctx):
    from sklearn.feature_extraction import DictVectorizer, FeatureHasher
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer

    rng = ctx.rng
    which = rng.choice([CountVectorizer, TfidfVectorizer, HashingVectorizer, CountVectorizer, TfidfVectorizer, HashingVectorizer,
                        DictVectorizer, FeatureHasher, TfidfTransformer])
    docs = data.corpus(ctx, 12)
    if which in (DictVectorizer, FeatureHasher):
        rows = [{rng.choice(docs)[:4] or "e": rng.choice([1, 2.5, "v", "w", True, 0]) for _ in range(3)} for _ in range(8)]
        kw = {}
        if which is DictVectorizer:
            kw = _pick(ctx, sparse=[True, False], dtype=[np.float32, int, float], sort=[False], separator=["==", ":"])
        est = fit_or_skip(which(**kw), rows)
        return est, "dicts", rows, None if which is DictVectorizer else "no counterpart", dict(kw, est=which.__name__)
    if which is TfidfTransformer:
        kw = _pick(ctx, norm=["l1", "l2", None], use_idf=[False], smooth_idf=[False], sublinear_tf=[True])
        X = data.counts(ctx, 12, 5)
        X[0] = 1.0
        est = fit_or_skip(TfidfTransformer(**kw), sp.csr_matrix(X))
        return est, "sparse", data.counts(ctx, 5, 5).tolist(), None, dict(kw, est="TfidfTransformer")
    must = None
    kw = _pick(
        ctx, lowercase=[False], strip_accents=["ascii", "unicode"], ngram_range=[(1, 2), (2, 2), (1, 3)],
        analyzer=["char", "char_wb", "word"], binary=[True], dtype=[np.float32, np.float64], token_pattern=[r"\w+", r"(?u)\b\w\w\w+\b"],
        stop_words=[["good", "a"], ["the", "the"], None],
    )
    if rng.random() < 0.3:
        name, value = rng.choice([
            ("analyzer", _letters), ("tokenizer", _letters), ("preprocessor", _shout), ("strip_accents", _shout),
            ("stop_words", "english"),
        ])
        kw[name] = value
        must = "custom callable" if name != "stop_words" else None
        kw["must"] = name
    kw.pop("must", None)
    if which is HashingVectorizer:
        kw.update(_pick(ctx, norm=["l1", "l2", None], alternate_sign=[False], n_features=[2, 16, 1000]))
        kw.setdefault("n_features", 64)
    else:
        kw.update(_pick(ctx, min_df=[2], max_df=[0.8], max_features=[5]))
    if which is TfidfVectorizer:
        kw.update(_pick(ctx, norm=["l1", "l2", None], use_idf=[False], smooth_idf=[False], sublinear_tf=[True]))
    est = fit_or_skip(which(**kw), docs)
    rows = [rng.choice(docs) for _ in range(3)] + [data.document(ctx) for _ in range(3)]
    config = dict(kw, est=which.__name__)
    if kw.get("stop_words") == "english":
        config["english"] = True
    return est, "docs", rows, must, config


def pipelines(ctx):
    from sklearn.compose import ColumnTransformer
    from sklearn.decomposition import PCA
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.feature_selection import SelectKBest, VarianceThreshold
    from sklearn.impute import SimpleImputer
    from sklearn.linear_model import LogisticRegression
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import FunctionTransformer, MaxAbsScaler, PolynomialFeatures, RobustScaler, StandardScaler
    from sklearn.tree import DecisionTreeClassifier

    rng = ctx.rng
    X, y, rows, k = _xy(ctx, modes=("gauss", "grid"))
    good = [StandardScaler, MaxAbsScaler, lambda: SimpleImputer(strategy="median")]
    bad = [PCA, lambda: SelectKBest(k=1), VarianceThreshold, FunctionTransformer, PolynomialFeatures, RobustScaler,
           lambda: ColumnTransformer([("s", StandardScaler(), [0])])]
    special = ["passthrough", None]
    must, shape = None, []

    def part(union=False):
        nonlocal must
        u = rng.random()
        if u < 0.6:
            est = rng.choice(good)()
        elif u < 0.75:
            est = rng.choice(bad)()
            must = "step without counterpart"
        elif u < 0.9:
            est = rng.choice(["drop", None] if union else special)
            shape.append(repr(est))
            return est
        elif union:
            est = Pipeline([("in%d" % i, part()) for i in range(2)])
        else:
            est = FeatureUnion([("in%d" % i, part(True)) for i in range(2)])
        shape.append(type(est).__name__)
        return est

    steps = [("s%d" % i, part()) for i in range(rng.choice([0, 1, 2]))]
    last = rng.choice([
        LogisticRegression(max_iter=20), DecisionTreeClassifier(max_depth=3), RandomForestClassifier(2), KNeighborsClassifier(2),
        "transformer", "passthrough", None,
    ])
    shape.append(last if isinstance(last, (str, type(None))) else type(last).__name__)
    if isinstance(last, KNeighborsClassifier):
        must = "step without counterpart"
    if last == "transformer":
        last = part()
    est = Pipeline(steps + [("final", last)])
    fit_or_skip(est, X, _labels(ctx, y, k))
    return est, "matrix", rows, must, {"steps": shape}


BUILDERS = {
    "linear": linear, "tree": tree, "boosting": boosting, "bagging": bagging, "xgb": xgb, "bayes": bayes, "dummy": dummy,
    "encoders": encoders, "preprocess": preprocess, "text": text, "pipelines": pipelines,
}
