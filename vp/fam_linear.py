""" Linear classifiers """

import math

import numpy as np
from sklearn.linear_model import (
    LogisticRegression,
    PassiveAggressiveClassifier,
    Perceptron,
    RidgeClassifier,
    SGDClassifier,
)
from sklearn.svm import LinearSVC

from . import data
from .core import Skip, call
from .subject import (
    Subject, compare_labels, compare_matrix, check_log_proba, fit_or_skip, native_list, pure_list,
)

EPS = 2.0 ** -52
KINDS = ("lr_ovr", "lr_multinomial", "lr_auto", "ridge", "sgd", "sgd_log", "perceptron", "pa", "svc")


class LinearSubject(Subject):
    sparse_ok = True
    classifier = True
    exact_rows = False  # all products and sums are exact in double precision

    def score_tol(self, rows):
        """ absolute error bound of a decision score, per row and class """
        W = np.atleast_2d(self.native.coef_)
        b = np.abs(np.broadcast_to(np.asarray(self.native.intercept_, dtype=float).ravel(), (W.shape[0],)))
        if self.exact_rows:
            return np.zeros((len(rows), W.shape[0]))
        S = np.abs(np.array(rows, dtype=float)) @ np.abs(W).T + b
        return 4 * (W.shape[1] + 4) * EPS * S + 1e-300

    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "family": self.family}
        tol = self.score_tol(rows)
        binary = len(self.native.classes_) == 2
        if method == "decision_function":
            compare_matrix(
                ctx, what, out, ref, rtol=0.0,
                tol=lambda i, j: tol[i][0 if j is None else j], **det
            )
            n_zero = sum(1 for r in ref if r == 0.0 or (isinstance(r, list) and 0.0 in r))
            ctx.event("scores_exactly_zero", n_zero)
            return
        if method == "predict":
            scores = native_list(self.native.decision_function(self.native_input(rows)))
            if binary:
                scores = [[-s / 2, s / 2] for s in scores]
            ties = sum(1 for s in scores if sorted(s)[-1] == sorted(s)[-2])
            ctx.event("rows_with_tied_scores", ties)
            compare_labels(
                ctx, what, out, ref, scores=scores, exact=lambda i: self.exact_rows,
                tie_tol=lambda i: 2 * float(max(tol[i])), classes=self.classes(), **det
            )
            return
        # probabilities: an error d of a score changes p by a factor exp(2d) at most
        d = tol.max(axis=1)
        keep = [i for i in range(len(rows)) if d[i] < 1e-4]
        ctx.event("probability_rows_with_imprecise_score", len(rows) - len(keep))
        for i in keep:
            rel = 1e-10 + 4 * float(d[i])
            # only the first column of a binary model is 1 - p
            complement = binary and not self.multinomial()
            if method == "predict_proba":
                atol = lambda i, j: rel * abs(ref_i[j]) + (1e-15 if complement and j == 0 else 1e-320)
                ref_i = ref[i]
                compare_matrix(ctx, what, [out[i]], [ref_i], tol=atol, row=rows[i], **det)
            else:
                check_log_proba(
                    ctx, what, [out[i]], [ref[i]], rel=rel, sub=1e-15 if complement else 0.0, sub_columns=(0,),
                    row=rows[i], **det
                )
            big = max(abs(v) for v in ref[i])
            ctx.state(self.family, method, len(ref[i]), round(big, 1), self.config.get("hostile"))
        if method == "predict_proba":
            ctx.event("probabilities_saturated", sum(1 for i in keep if max(ref[i]) == 1.0))

    def multinomial(self):
        est = self.native
        mc = getattr(est, "multi_class", "ovr")
        return mc == "multinomial" or (
            mc == "auto" and len(est.classes_) > 2 and est.solver != "liblinear"
        )


def make(ctx, kind=None, hostile=None, n_rows=None):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(KINDS)
    k = ctx.size([2, 2, 2, 3, 3, 4, 6, 6, 14, 23], [2, 3, 70, 130])
    d = ctx.size([1, 2, 3, 5, 8, 20, 20, 70], [3, 300, 1200])
    n = max(30, 6 * k)
    X = data.matrix(ctx, n, d, rng.choice(("gauss", "grid", "int", "sparse", "binary")))
    y = data.signal_labels(ctx, X, k)
    lk, vals = data.label_values(ctx, k)
    Y = data.label_array(lk, vals, y)
    icpt = rng.random() < 0.7
    config = {"kind": kind, "classes": k, "features": d, "labels": lk, "fit_intercept": icpt}
    if kind.startswith("lr"):
        mc = {"lr_ovr": "ovr", "lr_multinomial": "multinomial", "lr_auto": "auto"}[kind]
        if mc == "multinomial":
            solver = rng.choice(["saga", "sag"])
        else:
            solver = rng.choice(["liblinear", "liblinear", "saga"])
        config.update(multi_class=mc, solver=solver)
        est = LogisticRegression(
            multi_class=mc, solver=solver, fit_intercept=icpt, max_iter=15,
            C=rng.choice([0.01, 1.0, 100.0]), random_state=0,
        )
    elif kind == "ridge":
        est = RidgeClassifier(fit_intercept=icpt, alpha=rng.choice([1e-3, 1.0, 50.0]))
    elif kind == "sgd":
        loss = rng.choice(["hinge", "modified_huber", "squared_hinge", "perceptron", "squared_loss"])
        config["loss"] = loss
        est = SGDClassifier(loss=loss, fit_intercept=icpt, max_iter=5, tol=None, random_state=0)
    elif kind == "sgd_log":
        est = SGDClassifier(
            loss="log", fit_intercept=icpt, max_iter=5, tol=None, random_state=0,
            average=rng.random() < 0.3,
        )
    elif kind == "perceptron":
        est = Perceptron(fit_intercept=icpt, max_iter=5, tol=None, random_state=0)
    elif kind == "pa":
        est = PassiveAggressiveClassifier(fit_intercept=icpt, max_iter=5, tol=None, random_state=0)
    else:
        est = LinearSVC(fit_intercept=icpt, max_iter=50, random_state=0)
    fit_or_skip(est, X, Y)
    methods = ["decision_function", "predict"]
    if kind.startswith("lr") or kind == "sgd_log":
        methods += ["predict_proba", "predict_log_proba"]

    n_rows = n_rows or ctx.size([1, 2, 7, 25], [2, 40, 600])
    exact = False
    hostile = hostile or rng.choice(("none", "none", "dyadic", "zero", "huge", "extreme", "equal", "spread", "target"))
    shape = est.coef_.shape
    rows = data.matrix(ctx, n_rows, d)
    if hostile == "dyadic":
        # all arithmetic exact: ties and zero scores are real
        est.coef_ = r.randint(-3, 4, shape) / 4.0
        _set_intercept(est, r.randint(-3, 4, shape[0]) / 4.0, icpt)
        rows = data.matrix(ctx, n_rows, d, rng.choice(("int", "grid", "binary")))
        exact = True
    elif hostile == "zero":
        est.coef_ = np.zeros(shape)
        _set_intercept(est, np.zeros(shape[0]), icpt)
        exact = True
    elif hostile == "equal":
        est.coef_ = np.repeat(r.randint(-2, 3, (1, d)).astype(float), shape[0], axis=0)
        _set_intercept(est, np.full(shape[0], 0.5), icpt)
        rows = data.matrix(ctx, n_rows, d, "int")
        exact = True
    elif hostile == "huge":
        est.coef_ = est.coef_ * 10.0 ** rng.choice([1, 2, 3, 5])
    elif hostile == "extreme":
        # scores around the limits of exp(), still exact
        est.coef_ = r.randint(-3, 4, shape) * 2.0 ** rng.choice([3, 5, 7, 8, 9, 10, 60, 900])
        _set_intercept(est, np.zeros(shape[0]), icpt)
        rows = data.matrix(ctx, n_rows, d, rng.choice(("int", "binary")))
        exact = True
    elif hostile == "spread":
        # one score per feature: rows select scores anywhere in +-800
        est.coef_ = r.randint(-3200, 3201, shape) / 4.0
        _set_intercept(est, np.zeros(shape[0]), icpt)
        rows = np.zeros((n_rows, d))
        rows[np.arange(n_rows), r.randint(0, d, n_rows)] = r.choice([1.0, -1.0, 0.5, 0.25], n_rows)
        exact = True
    elif hostile == "target":
        # rows solved for the scores of all classes together
        centre = rng.choice([-711.0, -705.0, -695.0, -650.0, -345.0, -37.0, 0.0, 36.0, 710.0])
        T = centre + r.choice([0.0, 1.0, -3.0, 0.25, 8.0], (n_rows, shape[0])) * r.rand(n_rows, shape[0])
        rows = np.linalg.lstsq(est.coef_, (T - est.intercept_).T, rcond=None)[0].T
        if not np.all(np.isfinite(rows)):
            raise Skip("no such rows")
    else:
        rows = np.vstack([rows, X[: n_rows]])
    config["hostile"] = hostile
    return LinearSubject(
        ctx, type(est).__name__, est, rows.tolist(), methods, config, exact_rows=exact,
    )


def _set_intercept(est, value, icpt):
    if icpt:
        est.intercept_ = value
