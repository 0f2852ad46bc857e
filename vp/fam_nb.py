""" Naive Bayes and dummy classifiers """

import math

import numpy as np
from sklearn.dummy import DummyClassifier
from sklearn.naive_bayes import ComplementNB, GaussianNB, MultinomialNB

from . import data
from .core import Skip
from .subject import Subject, check_log_proba, compare_labels, compare_matrix, fit_or_skip

EPS = 2.0 ** -52
METHODS = ["predict", "predict_proba", "predict_log_proba"]
NB_KINDS = ("gaussian", "gaussian_far", "gaussian_huge", "multinomial", "multinomial_long", "complement", "tie", "dummy")


class NBSubject(Subject):
    classifier = True

    def jll(self, rows):
        return self.native._joint_log_likelihood(np.array(rows, dtype=float))

    def jll_error(self, rows):
        """ rounding error bound of the joint log-likelihoods, per row """
        X = np.array(rows, dtype=float)
        est = self.native
        with np.errstate(all="ignore"):
            if isinstance(est, GaussianNB):
                mag = np.zeros(len(X))
                for i in range(len(est.classes_)):
                    t = np.abs(np.log(2 * np.pi * est.sigma_[i])).sum()
                    t = t + ((X - est.theta_[i]) ** 2 / est.sigma_[i]).sum(axis=1)
                    # the difference to the mean cancels
                    t = t + (np.abs(est.theta_[i]) * np.abs(X - est.theta_[i]) / est.sigma_[i]).sum(axis=1)
                    lp = np.log(est.class_prior_[i])
                    mag = np.maximum(mag, t + (abs(lp) if math.isfinite(lp) else 0.0))
            else:
                w = np.abs(est.feature_log_prob_)
                mag = (np.abs(X) @ w.T).max(axis=1)
                lp = est.class_log_prior_
                lp = lp[np.isfinite(lp)]
                mag = mag + (np.abs(lp).max() if len(lp) else 0.0)
        return 8 * (X.shape[1] + 8) * EPS * (mag + 1.0)

    def same_parameters(self, a, b):
        est = self.native
        if isinstance(est, GaussianNB):
            parts = (est.theta_, est.sigma_, est.class_prior_)
        else:
            parts = (est.feature_log_prob_, est.class_log_prior_)
        return all(np.array_equal(p[a], p[b]) for p in parts)

    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "family": self.family}
        with np.errstate(all="ignore"):
            jll = self.jll(rows)
        err = self.jll_error(rows)
        ctx.require(len(out) == len(rows), "%s: %d answers for %d rows" % (what, len(out), len(rows)), **det)
        usable = [i for i in range(len(rows)) if np.isfinite(jll[i]).any() and not np.isnan(jll[i]).any()]
        ctx.event("rows_without_native_answer", len(rows) - len(usable))
        if method == "predict":
            labels = self.classes()
            idx = {repr(c): j for j, c in enumerate(labels)}

            def exact(i):
                i = usable[i]
                a, b = idx.get(repr(out[i])), idx[repr(ref[i])]
                if a is None or jll[i][a] != jll[i][b]:
                    return False
                if self.same_parameters(a, b):
                    ctx.event("exact_ties_decided")
                    return True
                return False

            compare_labels(
                ctx, what, [out[i] for i in usable], [ref[i] for i in usable],
                scores=[jll[i].tolist() for i in usable], exact=exact,
                tie_tol=lambda i: 4 * float(err[usable[i]]), classes=labels, **det
            )
            top = np.sort(jll, axis=1)
            if jll.shape[1] > 1:
                ctx.event("rows_with_tied_likelihoods", int((top[:, -1] == top[:, -2]).sum()))
            ctx.event("rows_with_underflowing_likelihoods", int((top[:, -1] < -746).sum()))
            return
        for i in usable:
            if err[i] > 1e-3:
                ctx.event("posteriors_beyond_double_precision")
                continue
            e = 4 * float(err[i])
            if method == "predict_proba":
                # a posterior is wrong by at most the factor exp(2 e)
                compare_matrix(ctx, what, [out[i]], [ref[i]], rtol=e + 1e-13, atol=1e-300, row=rows[i], **det)
            else:
                compare_matrix(ctx, what, [out[i]], [ref[i]], rtol=1e-14, atol=e + 1e-14, row=rows[i], **det)
            ctx.state(self.family, method, len(ref[i]), round(math.log1p(abs(float(jll[i].max()))), 1), [
                round(max(v, -50.0), 1) for v in ref[i]])


def make_nb(ctx, kind=None, n_rows=None):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(NB_KINDS)
    if kind == "dummy":
        return make_dummy(ctx, n_rows)
    k = ctx.size([2, 2, 2, 3, 3, 4, 4, 6, 6, 17, 55], [2, 3, 150]) if rng.random() < 0.95 else 1
    n = max(20, 6 * k)
    gaussian = kind.startswith("gaussian") or (kind == "tie" and rng.random() < 0.5)
    if not gaussian:
        # with one class the native library invents a column for a second one
        k = max(k, 2)
    lk, vals = data.label_values(ctx, k)
    m = n_rows or ctx.size([1, 3, 12], [3, 400])
    config = {"kind": kind, "classes": k, "labels": lk}
    if gaussian:
        d = ctx.size([1, 2, 4, 15, 15, 90], [4, 300, 1000])
        if m * d * k > 10 ** 7:
            m = 5
        mode = rng.choice(("gauss", "grid", "int", "binary", "const"))
        X = data.matrix(ctx, n, d, mode)
        y = data.signal_labels(ctx, X, k)
        if kind == "tie":
            # every class saw the same rows: equal parameters, exactly tied
            base = data.matrix(ctx, 6, d, "int")
            X = np.vstack([base] * k)
            y = np.repeat(np.arange(k), 6)
        if kind == "gaussian_huge":
            # squares beyond the largest number for some classes, not for others
            X = X + 6e153 * (np.where(y == 0, 1.0, -1.0))[:, None] + 1e150 * r.randn(n, d)
        kw = {"var_smoothing": rng.choice([1e-9, 1e-9, 1e-3, 1.0, 1e-14])}
        if rng.random() < 0.3 and kind != "tie":
            p = r.rand(k) + 0.05
            if rng.random() < 0.4:
                p[rng.randrange(k)] = rng.choice([1e-12, 1e-40, 1e-300, 0.0]) if k > 1 else 1.0
            kw["priors"] = p / p.sum()
        est = GaussianNB(**kw)
        rows = data.matrix(ctx, m, d, rng.choice(("gauss", "grid", "int"))) if kind != "gaussian_far" else (
            data.matrix(ctx, m, d, "gauss") * 10.0 ** r.choice([1, 2, 3, 4, 6], (m, 1)))
        if kind == "gaussian_huge":
            rows = 1.2e154 * r.choice([1.0, -1.0, 0.4, 0.1], (m, d)) * (1 + 0.01 * r.rand(m, d))
        rows = np.vstack([rows, X[:m]])
    else:
        d = ctx.size([1, 3, 8, 40], [8, 300, 1000])
        X = data.counts(ctx, n, d)
        if rng.random() < 0.3:
            X = X + r.rand(n, d)
        y = data.signal_labels(ctx, X + 1e-3 * r.rand(n, d), k)
        if kind == "tie":
            base = data.counts(ctx, 6, d)
            X = np.vstack([base] * k)
            y = np.repeat(np.arange(k), 6)
        kw = {"alpha": rng.choice([1.0, 0.1, 1e-10, 0.0, 10.0]), "fit_prior": rng.random() < 0.7}
        if rng.random() < 0.3 and kind != "tie":
            p = r.rand(k) + 0.05
            if rng.random() < 0.3 and k > 1:
                p[rng.randrange(k)] = 0.0
            kw["class_prior"] = (p / p.sum()).tolist()
        if kind == "complement" or (kind == "tie" and rng.random() < 0.5):
            kw["norm"] = rng.random() < 0.5
            est = ComplementNB(**kw)
        else:
            est = MultinomialNB(**kw)
        high = {"multinomial_long": rng.choice([300, 5000, 10 ** 6])}.get(kind, 6)
        rows = data.counts(ctx, m, d, high=high, density=rng.choice([0.1, 0.5, 1.0]))
        rows = np.vstack([rows, X[:m], np.zeros((1, d))])
    Y = data.label_array(lk, vals, y)
    w = None
    if rng.random() < 0.2 and kind != "tie":
        w = r.rand(len(Y)) + 0.1
    if rng.random() < 0.15:
        half = len(Y) // 2
        fit = lambda: est.partial_fit(X[:half], Y[:half], classes=np.unique(Y)).partial_fit(X[half:], Y[half:])
        try:
            with np.errstate(all="ignore"):
                fit()
        except Exception as e:
            raise Skip("native partial_fit: %s" % type(e).__name__)
        config["partial_fit"] = True
    else:
        with np.errstate(all="ignore"):
            fit_or_skip(est, X, Y, sample_weight=w)
    if gaussian and not est.sigma_.min() > 0:
        raise Skip("no variance at all: native posteriors are undefined")
    config.update(features=d, **kw)
    return NBSubject(ctx, type(est).__name__, est, rows.tolist(), list(METHODS), config)


class DummySubject(Subject):
    classifier = True
    exact_labels = True
    sparse_ok = True
    rtol = atol = 0.0
    log_rel, log_sub = 1e-14, 0.0


def make_dummy(ctx, n_rows=None):
    rng, r = ctx.rng, ctx.np
    k = ctx.size([1, 2, 3, 5, 5, 40], [3, 300, 1100])
    n = rng.choice([k, k + 1, k + 19, k + 33])
    y = r.randint(0, k, n)
    y[:k] = np.arange(k)
    if rng.random() < 0.3:
        y = np.arange(n - n % k) % k  # tied priors
    lk, vals = data.label_values(ctx, k)
    Y = data.label_array(lk, vals, y)
    X = np.zeros((len(Y), 2))
    est = DummyClassifier(strategy="prior")
    w = r.rand(len(Y)) if rng.random() < 0.3 else None
    fit_or_skip(est, X, Y, sample_weight=w)
    m = n_rows or ctx.size([1, 2, 7], [7, 2500])
    rows = data.matrix(ctx, m, 2).tolist()
    config = {"kind": "dummy", "labels": lk, "classes": k, "weighted": w is not None}
    return DummySubject(ctx, "DummyClassifier", est, rows, list(METHODS), config)
