""" Trees, forests, bagging, gradient boosting and xgboost """

import math

import numpy as np
from sklearn.dummy import DummyClassifier
from sklearn.ensemble import (
    BaggingClassifier,
    ExtraTreesClassifier,
    GradientBoostingClassifier,
    RandomForestClassifier,
)
from sklearn.linear_model import LogisticRegression, SGDClassifier
from sklearn.naive_bayes import GaussianNB, MultinomialNB
from sklearn.pipeline import Pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.tree import (
    DecisionTreeClassifier,
    DecisionTreeRegressor,
    ExtraTreeClassifier,
    ExtraTreeRegressor,
)

from . import data
from .core import Skip, call
from .subject import Subject, compare_labels, compare_matrix, fit_or_skip, native_list

CLASSIFIER_METHODS = ["predict", "predict_proba", "predict_log_proba"]


# ------------------------------------------------------------- row workloads


def tree_splits(trees):
    """ (feature, threshold) of every internal node of sklearn trees """
    out = []
    for t in trees:
        t = t.tree_
        for f, thr, left in zip(t.feature, t.threshold, t.children_left):
            if left >= 0:
                out.append((int(f), float(thr)))
    return out


def boundary_rows(ctx, splits, X, n):
    """ rows whose values sit on, or one rounding step beside, split thresholds """
    rng = ctx.rng
    rows = []
    d = X.shape[1]
    if not splits:
        return X[:n].tolist()
    by_feature = {}
    for f, t in splits:
        by_feature.setdefault(f, []).append(t)
    for _ in range(n):
        row = X[rng.randrange(len(X))].tolist()
        # either one feature on a threshold (the others reach it naturally) or all
        feats = list(by_feature) if rng.random() < 0.5 else [rng.choice(list(by_feature))]
        for f in feats:
            row[f] = rng.choice(data.neighbours(rng.choice(by_feature[f])))
        rows.append(row)
    return rows


def path_rows(ctx, tree, X, n):
    """ rows which reach a chosen internal node and then sit exactly at its threshold """
    rng = ctx.rng
    t = tree.tree_
    internal = [i for i in range(t.node_count) if t.children_left[i] >= 0]
    rows = []
    if not internal:
        return X[:n].tolist()
    paths = t.decision_path(np.ascontiguousarray(X, dtype=np.float32))
    for _ in range(n):
        node = rng.choice(internal)
        reach = np.flatnonzero(np.asarray(paths[:, node].todense()).ravel())
        row = X[rng.choice(list(reach))].tolist() if len(reach) else X[rng.randrange(len(X))].tolist()
        row[t.feature[node]] = rng.choice(data.neighbours(float(t.threshold[node])))
        rows.append(row)
    return rows


# -------------------------------------------------------------------- trees


class TreeSubject(Subject):
    sparse_ok = True

    def native_sparse(self):
        # the sparse form stands for the same numbers
        return False


TREES = {
    "dt_clf": DecisionTreeClassifier,
    "et_clf": ExtraTreeClassifier,
    "dt_reg": DecisionTreeRegressor,
    "et_reg": ExtraTreeRegressor,
}


def weights(ctx, n):
    r = ctx.np
    u = ctx.rng.random()
    if u < 0.5:
        return None
    if u < 0.7:
        return r.rand(n) + 0.01
    if u < 0.8:
        return r.randint(0, 4, n).astype(float)
    if u < 0.9:
        return r.choice([1e-6, 1.0, 1e6], n)
    return r.choice([1.0, 1.0, 1.0, -1.0], n)


def make_tree(ctx, kind=None, n_rows=None):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(list(TREES))
    n = ctx.size([4, 12, 40, 150], [150, 3000])
    d = ctx.size([1, 2, 4, 12, 12, 110], [4, 400])
    mode = rng.choice(data.MODES)
    X = data.matrix(ctx, n, d, mode)
    kw = {
        "max_depth": rng.choice([None, None, 1, 2, 3, 8]),
        "min_samples_leaf": rng.choice([1, 1, 1, 3]),
        "random_state": rng.randrange(1000),
        "splitter": rng.choice(["best", "random"]),
        "max_features": rng.choice([None, None, 1, "sqrt"]),
    }
    if rng.random() < 0.2:
        kw["max_leaf_nodes"] = rng.choice([2, 3, 6])
    if rng.random() < 0.1:
        kw["min_samples_split"] = 10 ** 6  # single leaf
    if rng.random() < 0.2:
        kw["ccp_alpha"] = 0.02
    config = {"kind": kind, "mode": mode, "n": n, "features": d, **kw}
    if kind.endswith("clf"):
        k = min(ctx.size([1, 2, 2, 3, 5, 9, 25], [2, 9, 130]), n)
        y = data.signal_labels(ctx, X, k, noise=rng.choice([0.0, 0.3, 1.0]))
        lk, vals = data.label_values(ctx, k)
        y = data.label_array(lk, vals, y)
        kw["criterion"] = rng.choice(["gini", "entropy"])
        kw["class_weight"] = rng.choice([None, None, "balanced"])
        config["labels"], config["classes"] = lk, k
        methods = list(CLASSIFIER_METHODS)
    else:
        y = data.matrix(ctx, n, 1, rng.choice(("gauss", "int", "wide", "const")))[:, 0]
        kw["criterion"] = rng.choice(["mse", "friedman_mse", "mae"])
        methods = ["predict"]
    if ctx.big and rng.random() < 0.4:
        # split off one row after the other: as deep as it gets
        n = min(n, 1000)
        X, y = np.arange(n * d, dtype=float).reshape(n, d), y[:n]
        if kind.endswith("clf"):
            k = len(vals)
            y = data.label_array(lk, vals, np.arange(n) % k)
        else:
            y = 2.0 ** np.arange(n)
        kw.update(max_depth=None, min_samples_leaf=1, class_weight=None) if "class_weight" in kw else kw.update(max_depth=None, min_samples_leaf=1)
        for name in ("max_leaf_nodes", "min_samples_split", "ccp_alpha"):
            kw.pop(name, None)
    if rng.random() < 0.15:
        y = y.reshape(-1, 1)
    w = weights(ctx, n)
    if w is not None and kw.get("class_weight"):
        # leaf weights which cancel up to rounding have no meaningful ratio
        w = np.abs(w)
    est = fit_or_skip(TREES[kind](**kw), X, y, sample_weight=w)
    config["weighted"] = w is not None
    config["nodes"] = int(est.tree_.node_count)
    m = n_rows or ctx.size([1, 3, 20, 40], [40, 700])
    splits = tree_splits([est])
    rows = boundary_rows(ctx, splits, X, m) + path_rows(ctx, est, X, m) + X[:m].tolist()
    if rng.random() < 0.3:
        rows = rows + [[rng.choice([0.0, -0.0, 5e-324, -5e-324, 3.4e38, -3.4e38, 1e-45, 1e-46]) for _ in range(d)] for _ in range(3)]
    rng.shuffle(rows)
    return TreeSubject(
        ctx, type(est).__name__, est, rows, methods, config,
        classifier=kind.endswith("clf"), exact_labels=True, splits=splits, rtol=1e-12, atol=0.0,
        log_rel=1e-11, log_sub=0.0,
    )


# ------------------------------------------------------- forests and bagging

ENSEMBLES = ("rf", "et", "bagging", "bagging_features", "bagging_other", "bagging_missing")


def base_estimator(ctx):
    rng = ctx.rng
    name = rng.choice(["lr", "gnb", "sgd_log", "pipe", "tree", "nested", "dummy"])
    base = {
        "lr": lambda: LogisticRegression(solver="liblinear"),
        "gnb": lambda: GaussianNB(var_smoothing=1e-3),
        "sgd_log": lambda: SGDClassifier(loss="log", max_iter=5, tol=None, random_state=0),
        "pipe": lambda: Pipeline([("s", StandardScaler()), ("c", LogisticRegression(solver="liblinear"))]),
        "tree": lambda: DecisionTreeClassifier(max_depth=2),
        "nested": lambda: RandomForestClassifier(n_estimators=3, max_depth=3),
        "dummy": lambda: DummyClassifier(strategy="prior"),
    }[name]()
    return name, base


class EnsembleSubject(Subject):
    classifier = True
    tie = 1e-12
    log_sub = 1e-15

    def native_sparse(self):
        return False


def make_ensemble(ctx, kind=None, n_rows=None):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(ENSEMBLES)
    n = ctx.size([12, 40, 100], [100, 500])
    d = ctx.size([2, 3, 6, 12], [6, 130])
    mode = rng.choice(("gauss", "grid", "int", "sparse", "near", "binary"))
    X = data.matrix(ctx, n, d, mode)
    k = min(ctx.size([2, 2, 2, 3, 3, 5, 5, 12], [2, 3, 60]), n)
    y = data.signal_labels(ctx, X, k, noise=rng.choice([0.1, 0.5]))
    lk, vals = data.label_values(ctx, k)
    y = data.label_array(lk, vals, y)
    kw = {"n_estimators": ctx.size([1, 2, 5, 10, 10, 10, 10, 120], [5, 300]), "random_state": rng.randrange(1000)}
    sparse_ok = True
    base_name = "tree"
    if kind in ("rf", "et"):
        kw.update(
            max_depth=rng.choice([None, 1, 3]), bootstrap=rng.random() < 0.7,
            class_weight=rng.choice([None, "balanced"]), criterion=rng.choice(["gini", "entropy"]),
            max_features=rng.choice(["sqrt", None, 1]), min_samples_leaf=rng.choice([1, 1, 4]),
        )
        est = (RandomForestClassifier if kind == "rf" else ExtraTreesClassifier)(**kw)
    else:
        base = None
        if kind == "bagging_other":
            base_name, base = base_estimator(ctx)
            sparse_ok = base_name in ("lr", "sgd_log", "tree", "nested", "dummy")
        elif rng.random() < 0.5:
            base = DecisionTreeClassifier(max_depth=rng.choice([1, 3, None]))
        if kind == "bagging_features":
            kw.update(
                max_features=rng.choice([1, 0.5, max(1, d - 1), d]),
                bootstrap_features=rng.random() < 0.5,
            )
        if kind == "bagging_missing":
            # tiny bootstrap samples: members that never saw some classes
            kw.update(max_samples=rng.choice([1, 2, 3, 4]))
            # a base which takes sample weights would be told about every class
            base_name = rng.choice(["pipe_tree", "pipe_gnb", "pipe_forest"])
            base = Pipeline([("c", {
                "pipe_tree": lambda: DecisionTreeClassifier(max_depth=rng.choice([1, None])),
                "pipe_gnb": lambda: GaussianNB(var_smoothing=0.1),
                "pipe_forest": lambda: RandomForestClassifier(n_estimators=2),
            }[base_name]())])
            sparse_ok = base_name != "pipe_gnb"
        else:
            kw.update(max_samples=rng.choice([1.0, 0.7]), bootstrap=rng.random() < 0.8)
        if base_name not in ("tree", "dummy"):
            kw["n_estimators"] = min(kw["n_estimators"], 120)
        est = BaggingClassifier(base, **kw)
    fit_or_skip(est, X, y)
    if base_name == "pipe_gnb":
        # a member which saw equal rows only divides by a variance of (nearly) zero
        if any(m.steps[-1][1].sigma_.min() < 1e-6 for m in est.estimators_):
            raise Skip("Gaussian member without variance")
    config = {"kind": kind, "mode": mode, "classes": k, "labels": lk, "features": d, "base": base_name, **kw}
    m = n_rows or ctx.size([1, 5, 25], [5, 25, 200])
    if k * kw["n_estimators"] > 5000:
        m = min(m, 5)
    rows = X[:m].tolist()
    trees = [t for t in est.estimators_ if hasattr(t, "tree_")]
    if trees and kind != "bagging_features":
        rows += boundary_rows(ctx, tree_splits(trees), X, m)
    # posteriors of enormous rows are rounding noise for Gaussian members
    rows += data.matrix(ctx, m, d, rng.choice(("gauss", "int")) if "gnb" in base_name else None).tolist()
    s = EnsembleSubject(
        ctx, type(est).__name__, est, rows, list(CLASSIFIER_METHODS), config, sparse_ok=sparse_ok,
    )
    s.missing = 0
    if kind.startswith("bagging"):
        s.missing = sum(1 for e in est.estimators_ if len(getattr(e, "classes_", est.classes_)) < k)
        # members on tiny samples can have extreme posteriors, which a mean of
        # probabilities and a logsumexp of log-probabilities treat alike only
        # while the probability itself is representable
        if base_name in ("gnb", "pipe", "lr", "sgd_log", "pipe_gnb"):
            s.log_rel, s.rtol, s.atol, s.tie, s.log_sub = 1e-7, 1e-9, 1e-11, 1e-9, 1e-13
        if "gnb" in base_name:
            # rounding of a posterior grows with the joint log-likelihood
            big = max(
                float(np.abs((m.steps[-1][1] if hasattr(m, "steps") else m)._joint_log_likelihood(
                    np.array(rows)[:, f])).max())
                for m, f in zip(est.estimators_, est.estimators_features_)
            )
            if not big < 1e9:
                raise Skip("Gaussian posterior beyond double precision")
            s.rtol += 1e-14 * big
            s.atol += 1e-14 * big
            s.tie += 1e-13 * big
            s.log_rel += 1e-13 * big
            s.log_sub += 1e-13 * big
    return s


# --------------------------------------------------------- gradient boosting

GB_KINDS = ("binary", "multi", "exponential", "init", "tie", "huge")


class GBSubject(Subject):
    classifier = True

    def native_sparse(self):
        return False


def make_gb(ctx, kind=None, n_rows=None):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(GB_KINDS)
    n = ctx.size([20, 60, 120], [120, 400])
    d = ctx.size([1, 2, 4, 11], [4, 130])
    mode = rng.choice(("gauss", "grid", "int", "near", "binary", "wide"))
    X = data.matrix(ctx, n, d, mode)
    k = ctx.size([3, 3, 4, 6, 13], [3, 30]) if kind == "multi" else 2
    loss = "deviance"
    if kind == "exponential":
        loss = "exponential"
    elif kind in ("init", "tie", "huge"):
        k = rng.choice([2, 2, 3])
        loss = rng.choice(["deviance", "exponential"]) if k == 2 else "deviance"
    y = data.signal_labels(ctx, X, k, noise=rng.choice([0.0, 0.2, 0.5]))
    kw = {
        "loss": loss,
        "n_estimators": ctx.size([1, 2, 5, 15, 15, 130], [5, 300]),
        "learning_rate": rng.choice([0.1, 0.1, 1.0, 0.01, 3.0, np.float64(0.3), np.float32(0.25), 1, 10.0 ** rng.uniform(-3, 1), 1.0 / 3, 1e-7]),
        "max_depth": ctx.size([1, 2, 3, 5], [1, 3, 12]),
        "subsample": rng.choice([1.0, 1.0, 0.5]),
        "random_state": rng.randrange(1000),
        "max_features": rng.choice([None, None, 1]),
    }
    exact = False
    if kind == "tie":
        # nothing to learn: every tree is a leaf with value exactly 0 and the
        # prior is uniform, so raw scores are exactly tied
        X = np.ones((n - n % k, d))
        y = np.arange(len(X)) % k
        kw.update(subsample=1.0)
        exact = True
    if kind == "huge":
        kw["learning_rate"] = rng.choice([50.0, 1000.0, 1e5])
        kw["n_estimators"] = rng.choice([2, 5])
    lk, vals = data.label_values(ctx, k)
    Y = data.label_array(lk, vals, y)
    init = "prior"
    if kind == "init":
        mode = rng.choice(("gauss", "grid", "int", "binary"))
        X = data.float32_exact(data.matrix(ctx, n, d, mode))
        y = data.signal_labels(ctx, X, k, noise=0.3)
        Y = data.label_array(lk, vals, y)
        init = rng.choice(["tree", "lr", "forest", "gnb", "dummy", "pipe"])
        kw["init"] = {
            "tree": lambda: DecisionTreeClassifier(max_depth=rng.choice([1, 4, None]), random_state=0),
            "lr": lambda: LogisticRegression(solver="liblinear"),
            "forest": lambda: RandomForestClassifier(n_estimators=3, random_state=0),
            # well conditioned: rounding of a posterior is not amplified
            "gnb": lambda: GaussianNB(var_smoothing=0.1),
            "dummy": lambda: DummyClassifier(strategy="prior"),
            "pipe": lambda: Pipeline([("s", StandardScaler()), ("c", LogisticRegression(solver="liblinear"))]),
        }[init]()
    w = None
    if kind in ("binary", "multi", "exponential") and rng.random() < 0.3:
        w = r.rand(len(X)) + 0.1
    est = fit_or_skip(GradientBoostingClassifier(**kw), X, Y, sample_weight=w)
    kw.pop("init", None)
    config = {"kind": kind, "mode": mode, "classes": k, "labels": lk, "features": d, "init": init, **kw}
    m = n_rows or ctx.size([1, 4, 20], [4, 20, 200])
    trees = [t for row in est.estimators_ for t in row]
    rows = X[:m].tolist() + boundary_rows(ctx, tree_splits(trees), X, m)
    extra = data.matrix(ctx, m, d, rng.choice(("gauss", "int") if kind == "init" else ("gauss", "int", "wide")))
    rows += extra.tolist()
    if kind == "init":
        rows = data.float32_exact(rows).tolist()
    raw = est._raw_predict(np.array(rows, dtype=np.float32)) if kind == "init" else est.decision_function(np.array(rows))
    if not np.all(np.isfinite(raw)):
        raise Skip("native raw scores overflow")
    mag = float(np.abs(raw).max())
    inner = kw["n_estimators"] * kw["learning_rate"] * max(
        [float(np.abs(t.tree_.value).max()) for t in trees] + [0.0]
    )
    err = 1e-12 + 1e-15 * (mag + inner) * (kw["n_estimators"] + 4)
    if init in ("lr", "gnb", "pipe"):
        err += 2e-5  # the native initial estimator computes in single precision
    if err > 1e-3:
        raise Skip("raw scores too large for their rounding error")
    s = GBSubject(
        ctx, "GradientBoostingClassifier", est, rows, list(CLASSIFIER_METHODS), config,
        rtol=1e-12 + 4 * err, atol=1e-15, tie=1e-12 + 4 * err,
        log_rel=1e-11 + 8 * err, log_sub=1e-15 if k == 2 else 0.0, complement_columns=(0,) if k == 2 else (),
        exact_labels=exact, raw_magnitude=mag, tied=bool(kind == "tie"),
        # scikit-learn 0.23.2 reads the scores of some initial estimators in the
        # wrong memory order when it predicts several rows at once
        native_rowwise=kind == "init",
        labels_from_proba=loss != "exponential",
    )
    return s


# -------------------------------------------------------------------- xgboost

XGB_KINDS = ("binary", "multi", "names", "missing", "base_score", "pruned", "parallel", "early", "leaf")


class XGBSubject(Subject):
    classifier = True
    names = None

    def native_input(self, rows, sparse=False):
        X = np.array(rows, dtype=float)
        if self.names is not None:
            import pandas as pd

            return pd.DataFrame(X, columns=self.names)
        return X


def xgb_splits(booster, names):
    df = booster.trees_to_dataframe()
    df = df[df["Feature"] != "Leaf"]
    out = []
    for f, s in zip(df["Feature"], df["Split"]):
        j = names.index(f) if names else int(f[1:])
        out.append((j, float(np.float32(s))))
    return out


def make_xgb(ctx, kind=None, n_rows=None):
    import xgboost as xgb

    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(XGB_KINDS)
    n = ctx.size([40, 100, 250], [250, 1500])
    d = ctx.size([1, 3, 9, 10, 11, 23, 120], [11, 300, 1100])
    mode = rng.choice(("gauss", "grid", "int", "near", "binary"))
    X = data.matrix(ctx, n, d, mode)
    k = 2 if kind in ("binary", "base_score") else rng.choice([2, 2, 3, 5])
    if kind == "multi":
        k = ctx.size([3, 3, 4, 6, 12], [3, 20])
    # make high-numbered features matter
    f = rng.randrange(d)
    s = X[:, f] + 0.7 * X[:, rng.randrange(d)] + 0.3 * r.randn(n)
    y = (np.argsort(np.argsort(s)) * k // n).astype(int)
    lk, vals = data.label_values(ctx, k, rng.choice(["range", "range", "str", "gap", "bool"]))
    lk, vals = "range", list(range(k))  # the library only accepts 0..k-1
    kw = {
        "booster": "gbtree", "n_estimators": ctx.size([1, 3, 8, 8, 8, 110], [8, 300]) if kind != "multi" else ctx.size([1, 3, 8], [8, 60]), "n_jobs": 1, "verbosity": 0,
        "max_depth": ctx.size([1, 3, 6], [1, 6, 14]), "learning_rate": rng.choice([0.1, 0.3, 1.0]),
        "random_state": rng.randrange(1000), "tree_method": rng.choice(["exact", "hist", "approx"]),
        "subsample": rng.choice([1.0, 0.6]),
    }
    if d * kw["n_estimators"] > 20000:
        kw["n_estimators"] = 20
    names = None
    missing = float("nan")
    fit_kw = {}
    if kind == "names" or rng.random() < 0.2:
        style = rng.choice(["plain", "fdigits", "words"])
        names = {
            "plain": ["col%d" % i for i in range(d)],
            "fdigits": ["f%d" % ((i * 7 + 3) % 1000) for i in range(d)],
            "words": ["a feature %s" % chr(0x61 + i % 26) + str(i) for i in range(d)],
        }[style]
        if style == "fdigits":
            names = ["f%d" % j for j in rng.sample(range(1000 + d), d)]
    mask = None
    if kind == "missing":
        missing = rng.choice([float("nan"), float("nan"), float("nan"), -999.0, 0.0, 0.25, 1e35, -2.5e38, 1e-40])
        kw["missing"] = missing
        X[r.rand(n, d) < 0.3] = missing
    if kind == "base_score":
        kw["base_score"] = rng.choice([0.1, 0.9, 0.01, 0.5])
    if kind == "pruned":
        kw.update(tree_method="exact", gamma=rng.choice([0.5, 2.0, 5.0]), max_depth=6, subsample=1.0)
    if kind == "parallel":
        kw.update(num_parallel_tree=rng.choice([2, 3, 3, 5, 9]), subsample=0.6)
    if kind == "early":
        kw["n_estimators"] = 15
        kw["learning_rate"] = 1.0
    if kind == "leaf":
        # nothing to gain: single-leaf trees
        kw.update(gamma=1e9)
        if rng.random() < 0.5:
            y = np.arange(n) % k
    if kind != "leaf" and rng.random() < 0.15:
        kw["scale_pos_weight"] = 3.0 if k == 2 else None
    est = xgb.XGBClassifier(**kw)
    frame = (lambda A: A) if names is None else (lambda A: __import__("pandas").DataFrame(A, columns=names))
    if kind == "early":
        half = max(10, n // 3)
        yv = y[:half].copy()
        flip = r.rand(half) < rng.choice([0.2, 0.5])
        yv[flip] = r.randint(0, k, flip.sum())
        fit_kw = {"eval_set": [(frame(X[:half]), yv)], "early_stopping_rounds": rng.choice([1, 2, 4]), "verbose": False}
    fit_or_skip(est, frame(X), y, **fit_kw)
    booster = est.get_booster()
    config = {"kind": kind, "mode": mode, "classes": k, "features": d, "named": names is not None, **kw}
    if kind == "early":
        config["best_iteration"] = est.best_iteration
    m = n_rows or ctx.size([1, 4, 20], [4, 20, 200])
    splits = xgb_splits(booster, names)
    clean = np.where(X == X, X, 0.5)
    rows = X[:m].tolist() + boundary_rows(ctx, splits, clean, 2 * m) + data.matrix(ctx, m, d, mode).tolist()
    n_missing = 0
    if kind == "missing":
        for row in rows:
            for j in range(d):
                if rng.random() < 0.3:
                    row[j] = missing
                    if missing == missing and rng.random() < 0.3:
                        row[j] = rng.choice(data.neighbours(missing))
        rows.append([missing] * d)
        n_missing = sum(1 for row in rows if any(v != v or v == missing for v in row))
    leaf = 0.0
    df = booster.trees_to_dataframe()
    leaf = float(np.abs(df[df["Feature"] == "Leaf"]["Gain"]).max())
    n_trees = int(df["Tree"].max()) + 1
    gaps = int(sum(1 for _, g in df.groupby("Tree") if list(g["Node"]) != list(range(len(g)))))
    err = 2e-7 * (n_trees + 4) * (leaf + 1)
    s = XGBSubject(
        ctx, "XGBClassifier", est, rows, ["predict", "predict_proba"], config,
        names=names, rtol=1e-5 + 2 * err, atol=1e-6 + err, tie=2e-6 + 2 * err,
        complement_columns=(0,) if k == 2 else (), tiny=1e-37,
        exact_labels=False, n_missing=n_missing, pruned_trees=gaps, splits=splits,
    )
    return s
