""" C36: a converted model is as small as its parameters """

import copy
import gc
import os
import pickle
import tempfile
import tracemalloc

import numpy as np
import scipy.sparse as sp

from .. import zoo
from ..core import Skip, big_cases, call

RULE = (
    "A case converts a native model, and measures the bytes of both artefacts (pickles; the model file for fastText), the memory "
    "which unpickling the converted model takes, and the peak during conversion (tracemalloc, exact). 'training' kinds fit "
    "small models to thousands of rows or documents, 'wide' kinds have thousands of columns, words or categories, 'many' hundreds of members, classes, parts or steps; the others "
    "are all models of the other properties. More than 3 times the native artefact (5 times for fastText, whose native numbers "
    "have half the size) and 8 kB, or more memory than 32 bytes per byte of it, is a violation. Distinct: (model, sizes)."
)
QUICK_SCALE = 1
REQUIRED = {"models_measured": 350, "models_of_many_rows": 60, "wide_models": 40, "models_of_many_parts": 40, "models_over_100_kB": 40}
ASSUMPTIONS = ["the pickle of a native model, respectively the model file, holds little beyond the parameters of the model"]
SIZE, FLAT, MEMORY, ROOM = 3, 8192, 32, 1 << 19


NOT_PARAMETERS = ("stop_words_", "oob_decision_function_", "oob_prediction_")


def without_records(native):
    """ a copy without what is kept about the training data """
    native = copy.copy(native)
    for name in NOT_PARAMETERS:
        native.__dict__.pop(name, None)
    for name in ("steps", "transformer_list"):
        if hasattr(native, name):
            setattr(native, name, [(k, without_records(v) if hasattr(v, "fit") else v) for k, v in getattr(native, name)])
    return native


def native_size(native):
    try:
        return len(pickle.dumps(without_records(native), 4)), SIZE
    except Exception:
        with tempfile.NamedTemporaryFile() as f:
            native.save_model(f.name)
            return os.path.getsize(f.name), 5


def traced(func):
    """ (memory kept by the result, peak) of a call """
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        kept = func()
        now, top = tracemalloc.get_traced_memory()
        return kept, now - before, top - before
    finally:
        tracemalloc.stop()


def measure(ctx, what, native, convert):
    size, factor = native_size(native)
    call(ctx, what + ": conversion", convert)
    pure, _, top = call(ctx, what + ": conversion", traced, convert)
    blob = call(ctx, what + ": pickling", pickle.dumps, pure, 4)
    _, memory, _ = call(ctx, what + ": unpickling", traced, lambda: pickle.loads(blob))
    ctx.event("models_measured")
    if size > 100000:
        ctx.event("models_over_100_kB")
    ctx.state(what, size, len(blob))
    ctx.sample = {"model": what, "native bytes": size, "converted bytes": len(blob), "memory": memory, "conversion peak": top}
    ctx.require(
        len(blob) <= factor * size + FLAT, "%s: %d bytes pickled, of a native model of %d bytes" % (what, len(blob), size), **ctx.sample
    )
    ctx.require(
        memory <= MEMORY * size + ROOM, "%s: %d bytes in memory, of a native model of %d bytes" % (what, memory, size), **ctx.sample
    )
    ctx.require(
        top <= 2 * MEMORY * size + ROOM, "%s: the conversion of a native model of %d bytes takes %d bytes" % (what, size, top),
        **ctx.sample
    )


def _zoo(family):
    def case(ctx):
        s = zoo.make(ctx, family, 3)
        measure(ctx, type(s.native).__name__, s.native, lambda: s.convert(ctx))

    return case


def convert_one(native):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(native)


def estimators(rng, k):
    from sklearn import dummy, ensemble, linear_model, naive_bayes, svm, tree

    small = lambda: tree.DecisionTreeClassifier(max_depth=2)
    out = [
        linear_model.LogisticRegression(max_iter=5), linear_model.RidgeClassifier(solver="lsqr"), linear_model.SGDClassifier(max_iter=2, tol=None),
        linear_model.Perceptron(max_iter=2, tol=None), linear_model.PassiveAggressiveClassifier(max_iter=2, tol=None),
        linear_model.SGDClassifier(max_iter=3, average=True), linear_model.SGDClassifier(max_iter=3, early_stopping=True),
        svm.LinearSVC(max_iter=5, dual=False), small(), tree.ExtraTreeClassifier(max_depth=2), tree.DecisionTreeRegressor(max_depth=2),
        ensemble.RandomForestClassifier(4, max_depth=2, oob_score=rng.random() < 0.3), ensemble.ExtraTreesClassifier(4, max_depth=2),
        ensemble.BaggingClassifier(small(), 6, oob_score=rng.random() < 0.5), ensemble.BaggingClassifier(small(), 4, bootstrap_features=True, max_features=0.5),
        ensemble.BaggingClassifier(linear_model.LogisticRegression(max_iter=5), 4),
        ensemble.GradientBoostingClassifier(n_estimators=3, max_depth=1), ensemble.GradientBoostingClassifier(n_estimators=3, max_depth=1, subsample=0.5),
        naive_bayes.GaussianNB(), naive_bayes.MultinomialNB(), naive_bayes.ComplementNB(), dummy.DummyClassifier(strategy="prior"),
    ]
    try:
        import xgboost

        out.append(xgboost.XGBClassifier(n_estimators=3, max_depth=1, booster="gbtree"))
    except ImportError:
        pass
    return rng.choice(out)


def transformers(rng):
    from sklearn import impute, preprocessing
    from sklearn.pipeline import FeatureUnion, Pipeline

    one = lambda: rng.choice([
        preprocessing.StandardScaler(), preprocessing.MinMaxScaler(), preprocessing.MaxAbsScaler(), preprocessing.Normalizer(),
        impute.SimpleImputer(), impute.SimpleImputer(strategy="median"), impute.SimpleImputer(strategy="most_frequent"),
        impute.MissingIndicator(features="all"), preprocessing.OneHotEncoder(), preprocessing.OrdinalEncoder(),
    ])
    return rng.choice([one, lambda: FeatureUnion([("a", one()), ("b", one())])])()


def _training(ctx):
    """ few parameters, many rows """
    rng = ctx.rng
    n, d, k = rng.choice([4000, 12000]), rng.choice([1, 3, 6]), rng.choice([2, 2, 3])
    X = np.abs(np.floor(ctx.np.rand(n, d) * 9))
    y = ctx.np.randint(0, k, n)
    native = estimators(rng, k) if rng.random() < 0.6 else transformers(rng)
    try:
        native.fit(X, y)
    except Exception as e:
        raise Skip("natively not fitted: %s" % e)
    ctx.event("models_of_many_rows")
    measure(ctx, type(native).__name__ + " of %d rows" % n, native, lambda: convert_one(native))


def _documents(ctx):
    """ few words, many documents """
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer
    from sklearn.naive_bayes import MultinomialNB
    from sklearn.pipeline import Pipeline

    rng = ctx.rng
    n = rng.choice([1000, 4000])
    words = ["w%d" % i for i in range(rng.choice([5, 40]))]
    docs = [" ".join(rng.choice(words) for _ in range(6)) for _ in range(n)]
    y = ctx.np.randint(0, 2, n)
    name = rng.choice(["count", "tfidf", "pipe", "hash", "dict", "transformer", "rare", "rare", "rare"])
    if name == "dict":
        native = DictVectorizer().fit([dict.fromkeys(t.split(), 1.0) for t in docs])
    elif name == "transformer":
        native = TfidfTransformer().fit(CountVectorizer().fit_transform(docs))
    elif name == "hash":
        native = HashingVectorizer(n_features=rng.choice([2 ** 10, 2 ** 20, 2 ** 24])).fit(docs)
    elif name == "pipe":
        native = Pipeline([("v", TfidfVectorizer()), ("c", MultinomialNB())]).fit(docs, y)
    elif name == "rare":
        # thousands of words which are not kept
        docs += ["rare%d rare" % i for i in range(6000)]
        v = rng.choice([CountVectorizer, TfidfVectorizer])(**rng.choice([{"min_df": 3}, {"max_features": 10}]))
        if rng.random() < 0.4:
            v = Pipeline([("v", v), ("c", MultinomialNB())])
        native = v.fit(docs, np.arange(len(docs)) % 2)
    else:
        native = {"count": CountVectorizer, "tfidf": TfidfVectorizer}[name](ngram_range=(1, rng.choice([1, 2]))).fit(docs)
    ctx.event("models_of_many_rows")
    measure(ctx, "%s (%s) of %d documents" % (type(native).__name__, name, n), native, lambda: convert_one(native))


def _wide(ctx):
    """ many columns, words, categories or classes: nothing holds their square """
    from sklearn import dummy, impute, linear_model, naive_bayes, preprocessing, tree
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.feature_extraction.text import CountVectorizer, TfidfTransformer, TfidfVectorizer
    from sklearn.pipeline import FeatureUnion, Pipeline

    rng = ctx.rng
    n = rng.choice([2000, 6000, 20000])
    docs = [" ".join("w%d" % i for i in range(a, n, 50)) for a in range(50)]
    S = sp.csr_matrix(sp.random(20, n, 0.05, random_state=ctx.np))
    D = ctx.np.rand(6, n)
    y = np.arange(20) % rng.choice([2, 3])
    name, fit = rng.choice([
        ("tfidf", lambda: TfidfVectorizer().fit(docs)), ("transformer", lambda: TfidfTransformer().fit(S)),
        ("count", lambda: CountVectorizer().fit(docs)), ("dict", lambda: DictVectorizer().fit([dict.fromkeys(t.split(), 1.0) for t in docs])),
        ("onehot", lambda: preprocessing.OneHotEncoder().fit([["c%d" % i] for i in range(n)])),
        ("ordinal", lambda: preprocessing.OrdinalEncoder().fit([["c%d" % i] for i in range(n)])),
        ("scaler", lambda: preprocessing.StandardScaler().fit(D)), ("minmax", lambda: preprocessing.MinMaxScaler().fit(D)),
        ("maxabs", lambda: preprocessing.MaxAbsScaler().fit(S)),
        ("imputer", lambda: impute.SimpleImputer(add_indicator=True).fit(np.where(D < 0.1, np.nan, D))),
        ("nb", lambda: naive_bayes.MultinomialNB().fit(S, y)), ("complement", lambda: naive_bayes.ComplementNB().fit(S, y)),
        ("gauss", lambda: naive_bayes.GaussianNB().fit(D, np.arange(6) % 2)),
        ("linear", lambda: linear_model.SGDClassifier(max_iter=2, tol=None).fit(S, y)),
        ("tree", lambda: tree.DecisionTreeClassifier(max_depth=3, splitter="random").fit(D, np.arange(6) % 3)),
        ("dummy", lambda: dummy.DummyClassifier(strategy="prior").fit(np.zeros((n, 1)), np.arange(n))),
        ("union", lambda: FeatureUnion([("a", CountVectorizer()), ("b", TfidfVectorizer())]).fit(docs)),
        ("pipe", lambda: Pipeline([("a", TfidfVectorizer()), ("b", linear_model.SGDClassifier(max_iter=2, tol=None))]).fit(docs, np.arange(50) % 2)),
    ])
    try:
        native = fit()
    except Exception as e:
        raise Skip("natively not fitted: %s" % e)
    ctx.event("wide_models")
    measure(ctx, "%s (%s) of width %d" % (type(native).__name__, name, n), native, lambda: convert_one(native))


def _many(ctx):
    """ many members, classes, parts or steps: nothing holds their square """
    from sklearn import ensemble, linear_model, naive_bayes, preprocessing, tree
    from sklearn.feature_extraction.text import CountVectorizer
    from sklearn.pipeline import FeatureUnion, Pipeline

    rng = ctx.rng
    n, d = rng.choice([100, 300, 600]), rng.choice([2, 8, 30])
    X = ctx.np.rand(60, d)
    y = np.arange(60) % rng.choice([2, 2, 3])
    W, z = ctx.np.rand(2 * n, d), np.arange(2 * n) % n
    if rng.random() < 0.3:
        z = np.array(["class number %d" % i for i in z])
    stump = lambda: tree.DecisionTreeClassifier(max_depth=1, splitter="random")

    def xgb():
        import xgboost

        return xgboost.XGBClassifier(n_estimators=n // 3, max_depth=1, booster="gbtree").fit(X, y)

    name, fit = rng.choice([
        ("forest", lambda: ensemble.RandomForestClassifier(n, max_depth=1).fit(X, y)),
        ("extra", lambda: ensemble.ExtraTreesClassifier(n, max_depth=1).fit(X, y)),
        ("bagging", lambda: ensemble.BaggingClassifier(stump(), n).fit(X, y)),
        ("bagging", lambda: ensemble.BaggingClassifier(linear_model.RidgeClassifier(), n // 4, max_features=0.5).fit(X, y)),
        ("boosting", lambda: ensemble.GradientBoostingClassifier(n_estimators=n, max_depth=1).fit(X, y)), ("xgboost", xgb),
        ("classes", lambda: naive_bayes.GaussianNB().fit(W, z)), ("classes", lambda: naive_bayes.MultinomialNB().fit(W, z)),
        ("classes", lambda: naive_bayes.ComplementNB().fit(W, z)), ("classes", lambda: linear_model.RidgeClassifier().fit(W, z)),
        ("classes", lambda: linear_model.SGDClassifier(max_iter=1, tol=None).fit(W, z)), ("classes", lambda: tree.DecisionTreeClassifier(max_depth=2).fit(W, z)),
        ("classes", lambda: ensemble.RandomForestClassifier(6, max_depth=2).fit(W, z)),
        ("parts", lambda: FeatureUnion([("p%d" % i, preprocessing.StandardScaler()) for i in range(n)]).fit(X)),
        ("steps", lambda: Pipeline([("p%d" % i, preprocessing.StandardScaler()) for i in range(n)]).fit(X)),
        ("parts", lambda: FeatureUnion([("p%d" % i, CountVectorizer()) for i in range(n)]).fit(["the good ab %d" % i for i in range(9)])),
    ])
    try:
        native = fit()
    except Exception as e:
        raise Skip("natively not fitted: %s" % e)
    ctx.event("models_of_many_parts")
    measure(ctx, "%s (%s) of %d" % (type(native).__name__, name, n), native, lambda: convert_one(native))


CASES = {f: (_zoo(f), 20, 600) for f in zoo.ZOO}
CASES.update(big_cases(CASES, QUICK_SCALE))
CASES["training"] = (_training, 60, 1500)
CASES["documents"] = (_documents, 24, 600)
CASES["many"] = (_many, 60, 1200)
CASES["wide"] = (_wide, 60, 1500)
