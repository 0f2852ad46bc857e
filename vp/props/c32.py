""" C32: the time of a call grows in proportion to its input, not with its square """

import gc
import os
import random
import tempfile
import time
import warnings

import numpy as np

from .. import zoo
from ..core import CallTimeout, Skip, call, cpu_limit
from ..subject import new_sparse

RULE = (
    "A case draws a model (a random one of a family when rows are multiplied, otherwise one fitted with n and one with 64 n "
    "columns, categories, names, words, classes, members or stored values) and measures the processor time of the same call "
    "with n and with 64 n of them (least of several calls, garbage collector off). 64-fold work needs about 64-fold "
    "time (some caches make it 200-fold), quadratic work 4096-fold: more than 600-fold which remains so after repeated measurement is a violation, when the "
    "long call also takes more than 0.15 s. Distinct: (dimension, model, rounded ratio)."
)
QUICK_SCALE = 1
REQUIRED = {"ratios_measured": 150, "long_calls_of_50ms": 60}
ASSUMPTIONS = [
    "processor time of equal calls varies by less than a factor of eight between the best of several calls",
]
FACTOR = 64
LIMIT = 600
LONG = 0.15


def once(func):
    gc.collect()
    gc.disable()
    try:
        start = time.process_time()
        func()
        return time.process_time() - start
    finally:
        gc.enable()


def steady(func):
    """ seconds of one call, from as many as a coarse clock needs """
    spent = once(func)
    times = int(min(200, 1 + 0.03 / max(spent, 1e-5)))

    def many():
        for _ in range(times):
            func()

    return once(many) / times


def bounded(ctx, what, large, a):
    """ seconds of the long call, infinite when it is given up because it surely takes too long """
    limit = max(3.0, 2 * LIMIT * a)
    ctx.counters["calls"] += 1
    try:
        with cpu_limit(limit):
            return once(large)
    except CallTimeout:
        return float("inf")


def measure(ctx, what, small, large):
    """ small() and large() do the work of n and of FACTOR * n things """
    call(ctx, what, small)
    a = min(steady(small) for _ in range(3))
    b = bounded(ctx, what, large, a)
    if b > LONG and b > LIMIT * a:
        # is it the machine or the code? the best of everything seen decides
        for _ in range(4):
            a = max(a, steady(small))
            b = min(b, bounded(ctx, what, large, a))
            if b <= LIMIT * a:
                break
    ctx.event("ratios_measured")
    ctx.event("long_calls_of_50ms", b > 0.05)
    ratio = b / max(a, 1e-6)
    ctx.state(what, round(ratio) if ratio < 1e9 else "given up")
    ctx.sample = "%s: %.5f s -> %.4f s" % (what, a, b)
    ctx.require(
        b <= LONG or ratio <= LIMIT, "%s: %d times the work takes %.0f times the time" % (what, FACTOR, ratio),
        seconds=(a, b),
    )


def as_sparse(rows):
    width = len(rows[0])
    return new_sparse([{j: v for j, v in enumerate(row) if v != 0} for row in rows], width)


# ---------------------------------------------------------------- rows of input

ROWS = {"linear": 1500, "tree": 3000, "ensemble": 150, "gb": 150, "xgb": 150, "nb": 1000, "dummy": 4000, "scaler": 3000,
        "encoder": 2000, "imputer": 3000, "text": 500, "tfidf": 2000, "hashing": 300, "dict": 2000, "pipe": 200, "ft_supervised": 500}


def _rows(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, 3)
        pure = s.convert(ctx)
        rows = zoo.usable_rows(ctx, s, 6)
        if s.kind == "lines":
            rows = [r for r in rows if "\n" not in r]
        if not rows:
            raise Skip("no rows")
        method = rng.choice(s.methods if s.kind != "lines" else ["predict"])
        sparse = rng.choice(zoo.modes(s)) or s.kind == "counts"
        # a wide or slow model needs fewer rows
        n = ROWS[family]

        def ask(m):
            X = [rows[i % len(rows)] for i in range(m)]
            if s.kind in ("matrix", "counts"):
                X = as_sparse(X) if sparse else [list(r) for r in X]
            return lambda: getattr(pure, method)(X)

        call(ctx, "a first call", ask(2))
        per_row = once(ask(20)) / 20
        n = int(max(10, min(n, 0.008 / max(per_row, 1e-6))))
        measure(ctx, "rows of %s.%s%s" % (s.family, method, " sparse" if sparse else ""), ask(n), ask(FACTOR * n))

    return case


# ------------------------------------------------------- dimensions of the model
# (every choice comes before anything drawn n times: both sizes make the same choices)


def pure_of(native):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(native)


def word(i):
    return "w%d" % i


def document(n):
    words = [word(i) for i in range(n)]
    random.Random(n).shuffle(words)
    return " ".join(words)


def d_text_words(rng, n):
    """ words of a document, vocabulary large throughout """
    from sklearn.feature_extraction.text import CountVectorizer, TfidfVectorizer

    kw = rng.choice([{}, {"ngram_range": (1, 2)}, {"analyzer": "char"}, {"analyzer": "char_wb", "ngram_range": (2, 3)},
                     {"binary": True}, {"stop_words": ["w1", "w2"]}])
    if rng.random() < 0.6:
        kw = dict(kw, norm=rng.choice(["l1", "l2", None]), sublinear_tf=rng.random() < 0.5, use_idf=rng.random() < 0.7)
        est = TfidfVectorizer(**kw)
    else:
        est = CountVectorizer(**kw)
    est.fit([document(n)])
    p = pure_of(est)
    doc = document(n) + " " + " ".join("u%d" % i for i in range(n // 2))
    return lambda: p.transform([doc])


def d_hash_words(rng, n):
    from sklearn.feature_extraction.text import HashingVectorizer

    p = pure_of(HashingVectorizer(norm=rng.choice(["l1", "l2", None]), n_features=rng.choice([16, 2 ** 20]),
                                  ngram_range=rng.choice([(1, 1), (1, 2)]), alternate_sign=rng.random() < 0.5))
    doc = document(n // 4)
    return lambda: p.transform([doc])


def d_long_word(rng, n):
    """ one word of many letters """
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer

    letters = random.Random(n)
    long_word = "".join(letters.choice("abcdé") for _ in range(n * 4))
    kw = rng.choice([{"analyzer": "char"}, {"analyzer": "char_wb", "ngram_range": (3, 3)}, {}, {"strip_accents": "unicode"}])
    est = CountVectorizer(**kw).fit([long_word]) if rng.random() < 0.5 else HashingVectorizer(**kw)
    p = pure_of(est)
    return lambda: p.transform([long_word])


def d_tfidf_entries(rng, n):
    from sklearn.feature_extraction.text import TfidfTransformer

    p = pure_of(TfidfTransformer(norm=rng.choice(["l1", "l2", None]), sublinear_tf=rng.random() < 0.5)
                .fit(np.ones((2, n))))
    X = new_sparse([{i: 2.0 for i in range(n)}], n, int)
    return lambda: p.transform(X)


def d_dict_entries(rng, n):
    from sklearn.feature_extraction import DictVectorizer

    strings = rng.random() < 0.5
    row = {"k%d" % i: ("v%d" % i if strings else 1.5) for i in range(n)}
    p = pure_of(DictVectorizer(sparse=rng.random() < 0.6).fit([row]))
    return lambda: p.transform([row])


def scaler(rng):
    from sklearn import preprocessing as pre

    return rng.choice([
        lambda: pre.StandardScaler(with_mean=False), lambda: pre.MaxAbsScaler(), lambda: pre.Normalizer(norm="l1"),
        lambda: pre.Normalizer(norm="l2"), lambda: pre.Normalizer(norm="max"), lambda: pre.MinMaxScaler(),
        lambda: pre.StandardScaler(),
    ])()


def d_scaler_columns(rng, n):
    est = scaler(rng)
    sparse = rng.random() < 0.6 and type(est).__name__ != "MinMaxScaler" and getattr(est, "with_mean", False) is False
    p = pure_of(est.fit(np.random.randn(3, n)))
    rows = [[1.0 + i % 7 for i in range(n)] for _ in range(2)]
    X = as_sparse(rows) if sparse else rows
    return lambda: p.transform(X)


def d_encoder_columns(rng, n):
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder

    n = n // 4
    est = rng.choice([lambda: OneHotEncoder(sparse=rng.random() < 0.5, handle_unknown="ignore"), lambda: OrdinalEncoder()])()
    p = pure_of(est.fit([["a"] * n, ["b"] * n]))
    return lambda: p.transform([["a", "b"] * (n // 2) + ["a"] * (n % 2)])


def d_encoder_categories(rng, n):
    """ all categories of one column, one per row """
    from sklearn.preprocessing import OneHotEncoder, OrdinalEncoder

    p = pure_of((OneHotEncoder() if rng.random() < 0.5 else OrdinalEncoder()).fit([["c%d" % i] for i in range(n)]))
    rows = [["c%d" % i] for i in range(n)]
    random.Random(n).shuffle(rows)
    return lambda: p.transform(rows)


def d_unknown_categories(rng, n):
    """ known and unknown values in a column of many categories """
    from sklearn.preprocessing import OneHotEncoder

    few = rng.random() < 0.3
    est = OneHotEncoder(handle_unknown="ignore", sparse=not few)  # many columns and rows are quadratic when dense
    p = pure_of(est.fit([["c%d" % i] for i in range(20 if few else n)]))
    many = rng.choice([0, 1, 2])
    rows = [["c%d" % i] for i in range(n)] + [["u%d" % i] for i in range((1, 5, n)[many])]
    random.Random(n).shuffle(rows)
    return lambda: p.transform(rows)


def d_stop_words(rng, n):
    """ a long list of stop words and a long document """
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfVectorizer

    stop = [word(i) for i in range(0, 2 * n, 2)]
    kw = {"stop_words": rng.choice([list, frozenset])(stop), "ngram_range": rng.choice([(1, 1), (1, 2)])}
    which = rng.choice([CountVectorizer, TfidfVectorizer, HashingVectorizer])
    p = pure_of(which(**kw).fit(["some words " + word(1)]))
    doc = document(n)
    return lambda: p.transform([doc])


def d_text_ngrams(rng, n):
    """ all n-grams of a document, known or not """
    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer

    kw = {"analyzer": rng.choice(["word", "word", "char", "char_wb"]), "ngram_range": rng.choice([(1, 2), (2, 2), (2, 3), (1, 4)])}
    est = CountVectorizer(**kw).fit(["one two three four five"]) if rng.random() < 0.6 else HashingVectorizer(n_features=64, **kw)
    p = pure_of(est)
    doc = document(n // 4)
    return lambda: p.transform([doc])


def d_imputer_columns(rng, n):
    from sklearn.impute import MissingIndicator, SimpleImputer

    nan = float("nan")
    est = SimpleImputer(add_indicator=rng.random() < 0.5) if rng.random() < 0.6 else MissingIndicator()
    some = [nan, 1.0] if rng.random() < 0.6 else [nan, nan]
    p = pure_of(est.fit([some * (n // 2), [1.0, 2.0] * (n // 2)]))
    rows = [some * (n // 2)]
    return lambda: p.transform(rows)


def d_nb_columns(rng, n):
    from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB

    p = pure_of(rng.choice([GaussianNB, MultinomialNB, ComplementNB])().fit(np.random.rand(20, n), np.arange(20) % 2))
    method = rng.choice(["predict", "predict_proba", "predict_log_proba"])
    return lambda: getattr(p, method)([[1.0] * n])


def d_nb_classes(rng, n):
    from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB

    n = n // 8
    p = pure_of(rng.choice([GaussianNB, MultinomialNB, ComplementNB])().fit(np.random.rand(2 * n, 2), np.arange(2 * n) % n))
    method = rng.choice(["predict", "predict_proba", "predict_log_proba"])
    return lambda: getattr(p, method)([[1.0] * 2] * 3)


def d_linear_columns(rng, n):
    from sklearn.linear_model import Perceptron, RidgeClassifier, SGDClassifier

    est = rng.choice([lambda: Perceptron(max_iter=2), lambda: RidgeClassifier(solver="lsqr", max_iter=2),
                      lambda: SGDClassifier(loss="log", max_iter=2)])()
    k = rng.choice([2, 4])
    p = pure_of(est.fit(np.random.randn(12, n), np.arange(12) % k))
    rows = [[1.0] * n] * 3
    X = as_sparse(rows) if rng.random() < 0.5 else rows
    method = rng.choice([m for m in ("predict", "decision_function", "predict_proba") if hasattr(p, m)])
    return lambda: getattr(p, method)(X)


def d_linear_classes(rng, n):
    from sklearn.linear_model import LogisticRegression, Perceptron, SGDClassifier

    n = n // 20
    which = rng.choice(["multinomial", "ovr", "perceptron", "sgd"])
    est = {"multinomial": lambda: LogisticRegression(), "ovr": lambda: LogisticRegression(multi_class="ovr"),
           "perceptron": lambda: Perceptron(), "sgd": lambda: SGDClassifier(loss="log")}[which]()
    # fitting so many classes takes a while: only the coefficients matter
    X, y = np.random.randn(12, 3), np.arange(12) % 3
    est.fit(X, y)
    est.classes_ = np.arange(n)
    est.coef_ = np.random.randn(n, 3)
    est.intercept_ = np.random.randn(n)
    p = pure_of(est)
    method = rng.choice([m for m in ("predict", "decision_function", "predict_proba", "predict_log_proba") if hasattr(p, m)])
    rows = [[0.1, 0.2, 0.3]] * 20
    return lambda: getattr(p, method)(rows)


def d_tree_columns(rng, n):
    """ the path through a tree does not depend on the number of columns, an answer on wide rows may """
    from sklearn.ensemble import BaggingClassifier, RandomForestClassifier
    from sklearn.tree import DecisionTreeClassifier

    est = rng.choice([lambda: DecisionTreeClassifier(max_depth=2), lambda: RandomForestClassifier(n_estimators=3),
                      lambda: BaggingClassifier(DecisionTreeClassifier(max_depth=1), n_estimators=3, max_features=0.5)])()
    p = pure_of(est.fit(np.random.rand(12, n), np.arange(12) % 2))
    rows = [[1.0] * n] * 2
    X = as_sparse(rows) if rng.random() < 0.5 else rows
    return lambda: p.predict_proba(X)


def d_members(rng, n):
    from sklearn.ensemble import BaggingClassifier, GradientBoostingClassifier, RandomForestClassifier
    from sklearn.tree import DecisionTreeClassifier

    n = n // 100
    which = rng.choice(["rf", "bagging", "gb", "gb_multi"])
    X, y = np.random.rand(30, 3), np.arange(30) % (3 if which == "gb_multi" else 2)
    est = {"rf": lambda: RandomForestClassifier(n_estimators=n, max_depth=2),
           "bagging": lambda: BaggingClassifier(DecisionTreeClassifier(max_depth=1), n_estimators=n),
           "gb": lambda: GradientBoostingClassifier(n_estimators=n, max_depth=2),
           "gb_multi": lambda: GradientBoostingClassifier(n_estimators=n, max_depth=2)}[which]().fit(X, y)
    p = pure_of(est)
    method = rng.choice(["predict", "predict_proba"])
    return lambda: getattr(p, method)([[0.5] * 3] * 10)


def d_xgb_members(rng, n):
    from xgboost import XGBClassifier

    n = n // 100
    k = rng.choice([2, 3])
    est = XGBClassifier(n_estimators=n, max_depth=2, n_jobs=1, use_label_encoder=False, verbosity=0, booster="gbtree")
    p = pure_of(est.fit(np.random.rand(30, 3), np.arange(30) % k))
    return lambda: p.predict_proba([[0.5] * 3] * 10)


def d_tree_classes(rng, n):
    from sklearn.ensemble import ExtraTreesClassifier
    from sklearn.tree import DecisionTreeClassifier

    n = n // 8
    est = DecisionTreeClassifier(max_depth=2) if rng.random() < 0.5 else ExtraTreesClassifier(n_estimators=3, max_depth=2)
    p = pure_of(est.fit(np.random.rand(n, 2), np.arange(n)))
    method = rng.choice(["predict", "predict_proba", "predict_log_proba"])
    return lambda: getattr(p, method)([[0.5] * 2] * 10)


def d_dummy_classes(rng, n):
    from sklearn.dummy import DummyClassifier

    p = pure_of(DummyClassifier(strategy="prior").fit(np.zeros((n, 1)), np.arange(n)))
    method = rng.choice(["predict", "predict_proba", "predict_log_proba"])
    return lambda: getattr(p, method)([[0.5]] * 10)


def d_union_parts(rng, n):
    from sklearn.pipeline import FeatureUnion
    from sklearn.preprocessing import MaxAbsScaler

    n = n // 50
    p = pure_of(FeatureUnion([("a%d" % i, MaxAbsScaler()) for i in range(n)]).fit(np.random.rand(20, 3)))
    rows = [[1.0, 2.0, 3.0]] * 10
    X = as_sparse(rows) if rng.random() < 0.5 else rows
    return lambda: p.transform(X)


def d_pipeline_steps(rng, n):
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import MaxAbsScaler

    n = n // 50
    p = pure_of(Pipeline([("a%d" % i, MaxAbsScaler()) for i in range(n)]).fit(np.random.rand(20, 3)))
    rows = [[1.0, 2.0, 3.0]] * 10
    X = as_sparse(rows) if rng.random() < 0.5 else rows
    return lambda: p.transform(X)


def d_metric_columns(rng, n):
    from pure_sklearn.metrics import pairwise

    f = getattr(pairwise, rng.choice(["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"]))
    X, Y = [[1.0 + i % 3 for i in range(n)]] * 2, [[2.0] * n] * 3
    if rng.random() < 0.4:
        X = as_sparse(X)
    return lambda: f(X, Y)


def d_metric_rows(rng, n):
    from pure_sklearn.metrics import pairwise

    f = getattr(pairwise, rng.choice(["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"]))
    X, Y = [[1.0 + i % 3, 2.0] for i in range(n)], [[2.0, 1.0], [1.0, 1.0]]
    return (lambda: f(X, Y)) if rng.random() < 0.5 else (lambda: f(Y, X))


def d_sparse_list(rng, n):
    from pure_sklearn.utils import todense, tosparse

    wide = rng.random() < 0.5
    rows = [[1.0, 0.0] * n] if wide else [[1.0, 0.0] for _ in range(2 * n)]
    return lambda: todense(tosparse(rows))


def _fit_ft(n, labels):
    import fasttext
    from pure_fasttext.FastText import _FastText

    fd, path = tempfile.mkstemp(prefix="vp-c32-")
    try:
        with os.fdopen(fd, "w") as fh:
            for i in range(n):
                fh.write(("__label__%d " % (i % labels) if labels else "") + word(i) + "\n")
        if labels:
            m = fasttext.train_supervised(path, dim=4, epoch=1, thread=1, verbose=0, bucket=200)
        else:
            m = fasttext.train_unsupervised(path, model="cbow", dim=4, epoch=1, thread=1, verbose=0, minn=0, maxn=0, minCount=1)
        return _FastText(m)
    finally:
        os.unlink(path)


def d_ft_line(rng, n):
    labels = rng.choice([3, 3, 0])
    p = _fit_ft(3000, labels)
    line = document(n)
    return (lambda: p.predict(line)) if labels and rng.random() < 0.6 else (lambda: p.get_sentence_vector(line))


def d_ft_vocabulary(rng, n):
    """ as many words of the vocabulary as it has """
    labels = rng.choice([3, 0])
    p = _fit_ft(n, labels)
    line = document(n)
    return lambda: (p.predict if labels else p.get_sentence_vector)(line)


def d_ft_labels(rng, n):
    n = n // 4
    p = _fit_ft(n, n)
    k = rng.choice([1, -1])
    return lambda: p.predict(word(1) + " " + word(2), k=k)


def d_convert(rng, n):
    """ conversion of large models """
    from sklearn.feature_extraction.text import CountVectorizer
    from sklearn.linear_model import RidgeClassifier
    from sklearn.preprocessing import OneHotEncoder
    from sklearn.tree import DecisionTreeClassifier

    est = rng.choice([
        lambda: CountVectorizer().fit([document(4 * n)]),
        lambda: RidgeClassifier(solver="lsqr", max_iter=2).fit(np.random.randn(6, 8 * n), np.arange(6) % 3),
        lambda: OneHotEncoder().fit([["c%d" % i] for i in range(4 * n)]),
        lambda: DecisionTreeClassifier(splitter="random").fit(np.random.rand(n, 3), np.arange(n) % 3),
    ])()
    return lambda: pure_of(est)


def _dimension(make, n):
    def case(ctx):
        state = ctx.rng.getstate()

        def build(n):
            ctx.rng.setstate(state)
            np.random.seed(ctx.seed % 2 ** 32)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    return make(ctx.rng, n)
            except Exception as e:
                raise Skip("cannot be built: %s" % e)

        what = make.__name__[2:].replace("_", " ")
        size = n
        small = build(size)
        call(ctx, what, small)
        while size > 100 and min(call(ctx, what, once, small) for _ in range(2)) > 0.008:
            size //= 3
            small = build(size)
        measure(ctx, what, small, build(FACTOR * size))

    return case


# the long calls take some tenths of a second
SIZE = {"ft_vocabulary": 400, "ft_labels": 400, "ft_line": 900, "convert": 400, "long_word": 300, "text_words": 600, "metric_rows": 1000,
        "encoder_categories": 1200, "hash_words": 1000, "union_parts": 2000, "sparse_list": 2000, "metric_columns": 2000,
        "linear_classes": 3000, "members": 1200, "nb_classes": 400, "tree_classes": 600, "xgb_members": 800, "tree_columns": 600,
        "pipeline_steps": 3000, "dummy_classes": 2000}
CASES = {"rows_" + f: (_rows(f), 6, 100) for f in zoo.ZOO if f != "ft_unsupervised"}
CASES.update({name[2:]: (_dimension(f, SIZE.get(name[2:], 1500)), 6, 100) for name, f in sorted(globals().items()) if name.startswith("d_")})
