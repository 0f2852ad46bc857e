""" C25: predictions are the original training labels """

import numpy as np

from .. import data, fam_ft
from ..core import Skip, attempt, call
from ..subject import convert, fit_or_skip, native_list, same_label

RULE = (
    "A case fits one classifier (of every class, bare, as pipeline end, in nested pipelines, as bagging member or boosting "
    "init, fitted at once or by partial_fit with classes that never occur) on one kind of labels (small and huge integers of "
    "every width, booleans, single and double floats, strings, objects, in every order of appearance) and compares the class "
    "list, every predicted label (value and type) and every probability column by its label with the native ones; labels must "
    "be of built-in types and belong to the training labels. Distinct: label lists with the predictions observed."
)
QUICK_SCALE = 12.5
REQUIRED = {"labels_checked": 4000, "label_kinds": 300, "classes_never_seen": 8}

KINDS = {
    "range": lambda k: np.arange(k),
    "gap": lambda k: np.array([3, 10, 7, 100, 1][:k]),
    "negative": lambda k: np.array([-1, -5, 0, 2, -100][:k]),
    "int8": lambda k: np.array([-128, 127, 0, 5, 1][:k], dtype=np.int8),
    "uint8": lambda k: np.array([255, 0, 254, 1, 7][:k], dtype=np.uint8),
    "int32": lambda k: np.array([5, 4, 3, 2, 1][:k], dtype=np.int32),
    "uint64": lambda k: np.array([2 ** 63, 2 ** 64 - 1, 1, 0, 7][:k], dtype=np.uint64),
    "big": lambda k: np.array([2 ** 60, 2 ** 60 + 1, -(2 ** 62), 2 ** 53 + 1, 2 ** 53][:k]),
    "float": lambda k: np.array([0.0, 1.0, -2.0, 1e15, 3.0][:k]),
    "float32": lambda k: np.array([1.0, 0.0, 7.0, -3.0, 2.0][:k], dtype=np.float32),
    "bool": lambda k: np.array([True, False][:k]),
    "str": lambda k: np.array(["b", "a", "", "10", "2"][:k]),
    "unicode": lambda k: np.array(["é", "日本", "ß", "e\u0301", "Z"][:k]),
    "long": lambda k: np.array(["x" * 50, "x" * 49 + "y", "x", "y", "z z"][:k]),
    "object": lambda k: np.array(["one", "two", "three", "four", "five"][:k], dtype=object),
    "numeric_text": lambda k: np.array(["1", "0", "-1", "1.0", "True"][:k]),
}


def builders():
    from sklearn.dummy import DummyClassifier
    from sklearn.ensemble import BaggingClassifier, ExtraTreesClassifier, GradientBoostingClassifier, RandomForestClassifier
    from sklearn.linear_model import (
        LogisticRegression, PassiveAggressiveClassifier, Perceptron, RidgeClassifier, SGDClassifier,
    )
    from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB
    from sklearn.svm import LinearSVC
    from sklearn.tree import DecisionTreeClassifier, ExtraTreeClassifier

    return {
        "lr_ovr": lambda: LogisticRegression(multi_class="ovr", solver="liblinear", max_iter=20),
        "lr_multi": lambda: LogisticRegression(multi_class="multinomial", solver="saga", max_iter=20),
        "ridge": RidgeClassifier,
        "sgd": lambda: SGDClassifier(loss="log", max_iter=5, tol=None, random_state=0),
        "hinge": lambda: SGDClassifier(loss="hinge", max_iter=5, tol=None, random_state=0),
        "perceptron": lambda: Perceptron(max_iter=5, tol=None),
        "pa": lambda: PassiveAggressiveClassifier(max_iter=5, tol=None),
        "svc": lambda: LinearSVC(max_iter=50, random_state=0),
        "tree": lambda: DecisionTreeClassifier(max_depth=3, random_state=0),
        "extra_tree": lambda: ExtraTreeClassifier(max_depth=4, random_state=0),
        "forest": lambda: RandomForestClassifier(3, max_depth=3, random_state=0),
        "extra_trees": lambda: ExtraTreesClassifier(3, max_depth=3, random_state=0),
        "gb": lambda: GradientBoostingClassifier(n_estimators=3, random_state=0),
        "gb_exp": lambda: GradientBoostingClassifier(n_estimators=3, loss="exponential", random_state=0),
        "gb_init": lambda: GradientBoostingClassifier(
            n_estimators=2, init=DecisionTreeClassifier(max_depth=2, random_state=0), random_state=0),
        "gaussian": GaussianNB,
        "multinomial": MultinomialNB,
        "complement": ComplementNB,
        "dummy": lambda: DummyClassifier(strategy="prior"),
        "bagging": lambda: BaggingClassifier(DecisionTreeClassifier(max_depth=3), n_estimators=3, random_state=1),
        "bagging_lr": lambda: BaggingClassifier(
            LogisticRegression(solver="liblinear", max_iter=20), n_estimators=2, random_state=1),
        "bagging_few": lambda: BaggingClassifier(
            DecisionTreeClassifier(max_depth=3), n_estimators=4, max_samples=3, random_state=1),
        "bagging_nested": lambda: BaggingClassifier(
            BaggingClassifier(n_estimators=2, max_samples=0.2), n_estimators=2, max_samples=0.3, random_state=1),
    }


def wrap(ctx, est):
    """ sometimes as the end of a pipeline, or of a pipeline in a pipeline """
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import MaxAbsScaler

    u = ctx.rng.random()
    if u < 0.55:
        return est, "bare"
    if u < 0.8:
        return Pipeline([("scale", MaxAbsScaler()), ("clf", est)]), "pipeline"
    if u < 0.9:
        return Pipeline([("scale", MaxAbsScaler()), ("inner", Pipeline([("s", MaxAbsScaler()), ("clf", est)]))]), "nested pipeline"
    return Pipeline([("clf", est)]), "only step"


def column(classes, label):
    for j, c in enumerate(classes):
        if same_label(c, label):
            return j
    return None


def verify(ctx, what, native, pure, rows, rowwise=False):
    classes = native.classes_.tolist()
    got = call(ctx, what + ": classes_", lambda: pure.classes_)
    ctx.require(
        isinstance(got, list) and len(got) == len(classes) and all(same_label(a, b) for a, b in zip(got, classes)),
        what + ": class list differs", got=got, native=classes,
    )
    X = np.array(rows)

    def ask(method):
        if rowwise:
            return np.concatenate([getattr(native, method)(X[i:i + 1]) for i in range(len(X))])
        return getattr(native, method)(X)

    ref = ask("predict").tolist()
    scores = None
    for name in ("predict_proba", "decision_function"):
        if hasattr(native, name):
            scores = np.asarray(ask(name), dtype=float)
            break
    if scores is not None and scores.ndim == 1:
        scores = np.stack([-scores, scores], axis=1)
    out = call(ctx, what + ": predict", pure.predict, [list(r) for r in rows])
    ctx.require(isinstance(out, list) and len(out) == len(rows), what + ": not one label per row", got=out)
    for i, (a, b) in enumerate(zip(out, ref)):
        ctx.event("labels_checked")
        j = column(classes, a)
        ctx.require(j is not None, what + ": %r (%s) is no training label" % (a, type(a).__name__), classes=classes)
        if same_label(a, b):
            continue
        tie = scores is not None and scores.shape[1] == len(classes) and scores[i][column(classes, b)] - scores[i][j] < 1e-9
        ctx.require(tie, what + ": row %d has label %r, native %r" % (i, a, b), scores=None if scores is None else scores[i])
        ctx.event("near_ties_tolerated")
    if hasattr(native, "predict_proba"):
        P = call(ctx, what + ": predict_proba", pure.predict_proba, [list(r) for r in rows])
        for p, q in zip(P, ask("predict_proba").tolist()):
            for j, c in enumerate(classes):
                ctx.require(
                    abs(p[j] - q[j]) <= 1e-7, what + ": label %r has probability %r, native %r" % (c, p[j], q[j]), got=p, native=q,
                )
    ctx.state(repr(classes), what[:60], repr(out[:6]))


def _run(name):
    def case(ctx):
        rng = ctx.rng
        kind = rng.choice(sorted(KINDS))
        k = 2 if kind == "bool" or name == "gb_exp" else rng.choice([2, 2, 3, 5])
        labels = KINDS[kind](k)
        labels = labels[ctx.np.permutation(len(labels))]
        X = np.abs(data.matrix(ctx, 40, rng.choice([1, 3, 5]), rng.choice(["gauss", "grid"]))) + 0.01
        y = data.signal_labels(ctx, X, k)
        Y = labels[y]
        est = builders()[name]()
        fitted = "fit"
        if hasattr(est, "partial_fit") and name not in ("pa",) and rng.random() < 0.4:
            # some of the announced classes never occur
            every = np.array(sorted(set(labels.tolist())), dtype=labels.dtype)
            seen = rng.sample(range(k), max(1, k - 1)) if k > 2 else [0, 1]
            keep = np.isin(y, seen)
            try:
                est.partial_fit(X[keep], Y[keep], classes=every)
            except Exception as e:
                raise Skip("native partial_fit: %s" % type(e).__name__)
            if len(seen) < k:
                ctx.event("classes_never_seen")
            fitted = "partial_fit"
            native, where = est, "bare"
        else:
            native, where = wrap(ctx, est)
            fit_or_skip(native, X, Y)
        what = "%s (%s, %s) with %s labels" % (name, where, fitted, kind)
        ctx.sample = {"classifier": what, "labels": repr(labels)}
        try:
            if not np.all(np.isfinite(native.predict_proba(X))):
                raise Skip("native probabilities are not finite")
        except AttributeError:
            pass
        except ValueError as e:  # nested bagging with missing classes fails natively
            raise Skip("native predict_proba: %s" % type(e).__name__)
        pure = call(ctx, "converting " + what, convert, native)
        ctx.event("label_kinds")
        rows = X[:10].tolist() + (np.abs(ctx.np.randn(6, X.shape[1])) + 0.01).tolist()
        verify(ctx, what, native, pure, rows, rowwise=name == "gb_init")

    return case


def _xgb(ctx):
    import xgboost

    rng = ctx.rng
    k = rng.choice([2, 3, 5])
    X = data.matrix(ctx, 40, 3, "gauss")
    y = data.signal_labels(ctx, X, k).astype(rng.choice([np.int64, np.int8, np.float64, np.int32, np.float32]))
    if k == 2 and rng.random() < 0.3:
        y = y.astype(bool)
    native = xgboost.XGBClassifier(
        n_estimators=3, max_depth=2, verbosity=0, n_jobs=1, booster="gbtree",
        objective="binary:logistic" if k == 2 else "multi:softprob",
    )
    fit_or_skip(native, X, y)
    pure = call(ctx, "converting", convert, native)
    what = "xgb with %s labels" % y.dtype
    ctx.sample = {"classifier": what}
    rows = data.float32_exact(X[:12]).tolist()
    P = native.predict_proba(np.array(rows))
    ref = native.predict(np.array(rows)).tolist()
    out = call(ctx, what + ": predict", pure.predict, rows)
    classes = call(ctx, what + ": classes_", lambda: pure.classes_)
    ctx.require(
        [same_label(a, b) for a, b in zip(classes, native.classes_.tolist())] == [True] * len(native.classes_),
        what + ": class list differs", got=classes,
    )
    ctx.event("label_kinds")
    for i, (a, b) in enumerate(zip(out, ref)):
        ctx.event("labels_checked")
        ctx.require(column(classes, a) is not None, what + ": %r is no training label" % (a,), classes=classes)
        if a != b:
            top = np.sort(P[i])
            ctx.require(top[-1] - top[-2] < 1e-5, what + ": row %d has label %r, native %r" % (i, a, b))
    ctx.state(what, out)


def _fasttext(ctx):
    s = fam_ft.make_ft(ctx, "supervised")
    pure = s.convert(ctx)
    known = set(s.native.get_labels())
    ctx.event("label_kinds")
    for text in s.rows:
        labels, scores = call(ctx, "predict", pure.predict, text, -1)
        for l in labels:
            ctx.event("labels_checked")
            ctx.require(type(l) is str and l in known and l.startswith(s.prefix), "fastText: %r is no training label" % (l,))
        ctx.state(labels)


CASES = {name: (_run(name), 18, 700) for name in (
    "lr_ovr", "lr_multi", "ridge", "sgd", "hinge", "perceptron", "pa", "svc", "tree", "extra_tree", "forest", "extra_trees", "gb",
    "gb_exp", "gb_init", "gaussian", "multinomial", "complement", "dummy", "bagging", "bagging_lr", "bagging_few", "bagging_nested",
)}
CASES["xgb"] = (_xgb, 15, 400)
CASES["fasttext"] = (_fasttext, 10, 400)
