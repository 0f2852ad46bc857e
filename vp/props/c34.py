""" C34: the work for sparse rows depends on their stored values, not on their width """

import gc
import random
import time
import tracemalloc

import numpy as np
import scipy.sparse as sp

from ..core import Skip, call
from ..subject import new_sparse
from .c32 import pure_of

RULE = (
    "A case builds the same model for rows of 4096 and of 64 times 4096 columns (vocabulary words, names) and asks both for the same few rows "
    "with the same few stored values: the peak of memory allocated during the call (tracemalloc, exact) and its processor time "
    "(least of several calls) are compared. The work is the same, whereas anything done once per column grows 64-fold: more "
    "than 8 times the memory and 100 kB, or more than 16 times the time and 3 ms, which remains so after repeated measurement is "
    "a violation. Distinct: (model, method, stored values, rounded ratios)."
)
QUICK_SCALE = 1
REQUIRED = {"comparisons": 80, "peaks_measured": 160}
ASSUMPTIONS = ["processor time of equal calls varies by less than a factor of ten between the best of several calls"]
WIDTH, FACTOR = 4096, 64


def seconds(func):
    gc.collect()
    gc.disable()
    try:
        times, start = 0, time.process_time()
        while True:
            func()
            times += 1
            spent = time.process_time() - start
            if spent > 0.02 or times >= 400:
                return spent / times
    finally:
        gc.enable()


def peak(func):
    """ bytes allocated at most during a call, apart from what was there """
    gc.collect()
    tracemalloc.start()
    try:
        func()
        func()
        tracemalloc.reset_peak()
        before = tracemalloc.get_traced_memory()[0]
        kept = func()
        top = tracemalloc.get_traced_memory()[1]
        del kept
        return top - before
    finally:
        tracemalloc.stop()


def compare(ctx, what, small, large):
    call(ctx, what, small)
    call(ctx, what, large)
    a, b = peak(small), peak(large)
    ctx.event("peaks_measured", 2)
    ctx.require(b <= 8 * a or b <= 10 ** 5, "%s: %d times the columns take %d instead of %d bytes" % (what, FACTOR, b, a))
    s, t = seconds(small), seconds(large)
    for _ in range(5):
        if t <= 16 * s or t <= 0.003:
            break
        s, t = max(s, seconds(small)), min(t, seconds(large))
    ctx.event("comparisons")
    ctx.counters["calls"] += 2
    ctx.state(what, round(b / max(a, 1)), round(t / max(s, 1e-6)))
    ctx.sample = "%s: %d -> %d bytes, %.6f -> %.6f s" % (what, a, b, s, t)
    ctx.require(
        t <= 16 * s or t <= 0.003, "%s: %d times the columns take %.0f times the time" % (what, FACTOR, t / max(s, 1e-7)),
        seconds=(s, t), bytes=(a, b),
    )


def few(rng, n, width=None):
    """ rows of few stored values """
    rows = []
    for _ in range(n):
        row = {}
        for _ in range(rng.choice([0, 1, 3, 10, 30])):
            row[rng.randrange(WIDTH)] = rng.choice([1.0, 2.0, 0.5, 3.0, 0.0])
        rows.append(row)
    return rows


def native_few(rng, n, width):
    rows = few(rng, n)
    out = sp.lil_matrix((n, width))
    for i, row in enumerate(rows):
        for j, v in row.items():
            out[i, j * (width // WIDTH)] = v  # the same values, spread over the width
    return out.tocsr()


def m_linear(rng, width):
    from sklearn.linear_model import LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier
    from sklearn.svm import LinearSVC

    est = rng.choice([
        lambda: LogisticRegression(), lambda: LogisticRegression(multi_class="ovr"), lambda: SGDClassifier(loss="log"),
        lambda: Perceptron(), lambda: RidgeClassifier(), lambda: LinearSVC(), lambda: PassiveAggressiveClassifier(),
    ])()
    k = rng.choice([2, 3])
    est.fit(np.random.randn(12, 3), np.arange(12) % k)
    est.coef_ = np.random.RandomState(1).randn(1 if k == 2 else k, width)
    return est, ["predict", "decision_function", "predict_proba", "predict_log_proba"]


def m_scaler(rng, width):
    from sklearn.preprocessing import MaxAbsScaler, Normalizer, StandardScaler

    est = rng.choice([
        lambda: StandardScaler(with_mean=False), lambda: StandardScaler(with_mean=False, with_std=False), lambda: MaxAbsScaler(),
        lambda: Normalizer("l1"), lambda: Normalizer("l2"), lambda: Normalizer("max"),
    ])()
    return est.fit(native_few(rng, 6, width)), ["transform"]


def m_tfidf(rng, width):
    from sklearn.feature_extraction.text import TfidfTransformer

    est = TfidfTransformer(norm=rng.choice(["l1", "l2", None]), use_idf=rng.random() < 0.7)
    return est.fit(native_few(rng, 6, width)), ["transform"]


def m_tree(rng, width):
    from sklearn.ensemble import ExtraTreesClassifier, RandomForestClassifier
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor, ExtraTreeClassifier

    est = rng.choice([
        lambda: DecisionTreeClassifier(), lambda: ExtraTreeClassifier(), lambda: DecisionTreeRegressor(),
        lambda: RandomForestClassifier(n_estimators=5), lambda: ExtraTreesClassifier(n_estimators=5),
    ])()
    return est.fit(native_few(rng, 12, width).tocsc(), np.arange(12) % 3), ["predict", "predict_proba", "predict_log_proba"]


def m_union(rng, width):
    from sklearn.feature_extraction.text import TfidfTransformer
    from sklearn.pipeline import FeatureUnion
    from sklearn.preprocessing import MaxAbsScaler, Normalizer, StandardScaler

    parts = [rng.choice([MaxAbsScaler, Normalizer, TfidfTransformer, lambda: StandardScaler(with_mean=False)])() for _ in range(3)]
    weights = {"p1": 2.0} if rng.random() < 0.5 else None
    est = FeatureUnion([("p%d" % i, p) for i, p in enumerate(parts)], transformer_weights=weights)
    return est.fit(native_few(rng, 6, width)), ["transform"]


def m_pipeline(rng, width):
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import MaxAbsScaler, Normalizer

    first = rng.choice([MaxAbsScaler, Normalizer])().fit(native_few(rng, 6, width))
    last, methods = (m_linear if rng.random() < 0.6 else m_tree)(rng, width)
    est = Pipeline([("first", first), ("last", last)])
    return est, methods


MODELS = {"linear": m_linear, "scaler": m_scaler, "tfidf": m_tfidf, "tree": m_tree, "union": m_union, "pipeline": m_pipeline}


def _sparse(name):
    def case(ctx):
        rng = ctx.rng
        state = rng.getstate()
        pures = []
        for width in (WIDTH, FACTOR * WIDTH):
            rng.setstate(state)
            np.random.seed(ctx.seed % 2 ** 32)
            native, methods = MODELS[name](rng, width)
            if hasattr(native, "random_state"):
                native.random_state = 0
            pures.append((pure_of(native), width))
        method = rng.choice([m for m in methods if hasattr(pures[0][0], m)])
        rows = few(rng, rng.choice([1, 2, 5]))
        X = [new_sparse([{j * (width // WIDTH): v for j, v in r.items()} for r in rows], width) for _, width in pures]
        small, large = [lambda p=p, x=x: getattr(p, method)(x) for (p, _), x in zip(pures, X)]
        ctx.state(name, method, repr(rows))
        compare(ctx, "%s.%s of %d sparse rows" % (type(native).__name__, method, len(rows)), small, large)

    return case


# ----------------------------------------------- raw input to sparse output


def t_hashing(rng, width):
    from sklearn.feature_extraction.text import HashingVectorizer

    est = HashingVectorizer(n_features=width, norm=rng.choice(["l1", "l2", None]), binary=rng.random() < 0.3)
    return est, ["w%d w%d w%d" % tuple(rng.randrange(1000) for _ in range(3)) for _ in range(3)]


def t_vocabulary(rng, width):
    from sklearn.feature_extraction.text import CountVectorizer, TfidfVectorizer

    words = ["w%d" % i for i in range(width)]
    if rng.random() < 0.6:
        est = CountVectorizer(binary=rng.random() < 0.3).fit([" ".join(words)])
    else:
        est = TfidfVectorizer(norm=rng.choice(["l1", "l2", None]), sublinear_tf=rng.random() < 0.3).fit([" ".join(words)])
    return est, ["w%d w%d w%d unknown" % tuple(rng.randrange(WIDTH) for _ in range(3)) for _ in range(3)]


def t_names(rng, width):
    from sklearn.feature_extraction import DictVectorizer

    est = DictVectorizer(sparse=True).fit([{"k%d" % i: 1.0 for i in range(width)}])
    return est, [{"k%d" % rng.randrange(WIDTH): rng.random() for _ in range(4)} for _ in range(3)]


def t_chain(rng, width):
    """ text to a linear classifier """
    from sklearn.pipeline import Pipeline

    text, docs = (t_hashing if rng.random() < 0.5 else t_vocabulary)(rng, width)
    last, _ = m_linear(rng, width)
    return Pipeline([("text", text), ("last", last)]), docs


SOURCES = {"hashing": t_hashing, "vocabulary": t_vocabulary, "names": t_names, "chain": t_chain}


def _source(name):
    def case(ctx):
        rng = ctx.rng
        state = rng.getstate()
        pures = []
        for width in (WIDTH, FACTOR * WIDTH):
            rng.setstate(state)
            np.random.seed(ctx.seed % 2 ** 32)
            native, docs = SOURCES[name](rng, width)
            pures.append((pure_of(native), docs))
        method = "transform" if name != "chain" else "predict"
        small, large = [lambda p=p, x=x: getattr(p, method)(x) for p, x in pures]
        ctx.state(name, repr(docs))
        compare(ctx, "%s.%s to sparse rows" % (type(native).__name__, method), small, large)

    return case


CASES = {"rows_" + n: (_sparse(n), 12, 240) for n in MODELS}
CASES.update({"from_" + n: (_source(n), 8, 120) for n in SOURCES})
