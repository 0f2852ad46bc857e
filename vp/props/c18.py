""" C18: unsupported models are refused, never silently mispredicted """

import json
import math
import os
import warnings

import numpy as np
import scipy.sparse as sp

from .. import fam_ft, wild
from ..core import Skip, Violation, attempt, must_raise
from ..subject import is_sparse, new_sparse, sparse_rows

RULE = (
    "'wild' cases fit a native model with parameters drawn from its whole documented range, supported or not, convert it and "
    "call every prediction and transform method: each call has to raise or to return the native result; configurations which "
    "the package declares unsupported have to be refused. 'classes' converts every other estimator class of scikit-learn and "
    "xgboost, and user-defined subclasses; 'versions' pretends other scikit-learn versions, also against a minimum asked for; 'unfitted' converts models which were not (or not entirely) fitted; 'fasttext' trains models with "
    "subwords, n-grams, other losses and quantisation. Distinct: configurations with their outcome."
)
QUICK_SCALE = 4.5
REQUIRED = {"models_refused": 150, "answers_compared": 500, "refused_by_declaration": 60, "unfitted_models_tried": 150, "minimum_versions_tried": 100}

METHODS = ("predict", "predict_proba", "predict_log_proba", "transform", "decision_function")


def plain(out):
    if sp.issparse(out):
        out = out.toarray()
    if is_sparse(out):
        return [[row.get(j, 0) for j in range(out.size)] for row in out]
    if isinstance(out, np.ndarray):
        return out.tolist()
    if isinstance(out, (list, tuple)):
        return [plain(v) for v in out]
    return out


def close(a, b, log=False):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(close(x, y, log) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b or (a != a and b != b):
            return True
        if log and a < -25 and b < -25:
            return True
        if not (math.isfinite(a) and math.isfinite(b)):
            return False
        return abs(a - b) <= 1e-6 + 1e-6 * max(abs(a), abs(b))
    return type(a) is type(b) and a == b


def inputs(kind, rows):
    if kind == "matrix":
        return np.array(rows, dtype=float), [list(r) for r in rows]
    if kind == "matrix_any":
        return np.array(rows), [list(r) for r in rows]
    if kind == "objects":
        return np.array(rows, dtype=object), [list(r) for r in rows]
    if kind == "sparse":
        return sp.csr_matrix(np.array(rows)), new_sparse(sparse_rows(rows), len(rows[0]))
    return rows, list(rows)


def near_tie(native, X, i):
    """ the native scores of two labels are equal up to rounding """
    for name in ("predict_proba", "decision_function"):
        try:
            s = np.asarray(getattr(native, name)(X), dtype=float)
        except Exception:
            continue
        if s.ndim == 1:
            return abs(s[i]) < 1e-6
        if s.ndim == 2 and s.shape[1] > 1:
            top = np.sort(s[i])
            if top[-1] - top[-2] < 1e-6:
                return True
    return False


def observe(ctx, name, native, kind, rows, must, config):
    from pure_sklearn.map import convert_estimator

    what = "%s %s" % (name, config)
    ok, pure = attempt(ctx, convert_estimator, native)
    if not ok:
        ctx.event("models_refused")
        if must:
            ctx.event("refused_by_declaration")
        ctx.state(name, repr(config), "refused")
        return
    ctx.event("models_accepted")
    reference = wild.NativeGB(native) if name == "boosting" else native
    X, P = inputs(kind, rows)
    answered = 0
    for method in METHODS:
        ok, out = attempt(ctx, lambda: getattr(pure, method)(P))
        if not ok:
            ctx.event("calls_refused")
            continue
        answered += 1
        if must:
            ctx.fail("%s: %s was accepted although unsupported (%s)" % (what, method, must), result=out)
        try:
            ref = plain(getattr(reference, method)(X))
        except Exception as e:
            ctx.event("native_refuses")
            continue
        out = plain(out)
        ctx.event("answers_compared")
        ctx.counters["oracle_evaluations"] += 1
        if not isinstance(out, list) or not isinstance(ref, list) or len(out) != len(ref):
            ctx.fail("%s: %s has another shape than the native one" % (what, method), got=out, native=ref)
        for i, (a, b) in enumerate(zip(out, ref)):
            if close(a, b, method == "predict_log_proba"):
                continue
            if isinstance(b, (list, float)) and any(v != v for v in np.ravel(np.array(b, dtype=object))):
                ctx.event("native_nan")
                continue
            if method == "predict" and near_tie(reference, X, i):
                ctx.event("near_ties_tolerated")
                continue
            ctx.fail("%s: %s of row %d is %r, native %r" % (what, method, i, a, b), row=rows[i])
    ctx.state(name, repr(config), answered)


def _wild(name):
    def case(ctx):
        native, kind, rows, must, config = wild.BUILDERS[name](ctx)
        ctx.sample = {"builder": name, "config": config, "must": must}
        observe(ctx, name, native, kind, rows, must, config)

    return case


def _classes(ctx):
    """ unknown classes are refused, whatever they look like """
    from pure_sklearn.map import convert_estimator

    classes = wild.all_native_classes()
    try:
        import xgboost

        for cls in ("XGBRegressor", "XGBRFClassifier", "XGBRFRegressor", "XGBRanker"):
            classes[cls] = getattr(xgboost, cls)
    except ImportError:
        pass
    names = sorted(set(classes) - wild.MAPPED)
    X = np.abs(ctx.np.randn(30, 3))
    y = (ctx.np.rand(30) < 0.5).astype(int)
    tried = 0
    for name in names[ctx.index::8]:
        try:
            est = classes[name]()
        except Exception:
            continue
        try:
            est.fit(X, y)
            ctx.event("unknown_classes_fitted")
        except Exception:
            pass
        must_raise(ctx, "converting %s" % name, convert_estimator, est)
        ctx.event("models_refused")
        ctx.event("refused_by_declaration")
        ctx.state("class", name)
        tried += 1
    # subclasses may behave in any way
    for name in sorted(wild.MAPPED & set(classes))[ctx.index::8]:
        sub = type("My" + name, (classes[name],), {})
        try:
            est = sub()
        except Exception:
            continue
        try:
            est.fit(X, y)
        except Exception:
            pass
        must_raise(ctx, "converting a subclass of %s" % name, convert_estimator, est)
        ctx.event("models_refused")
        ctx.state("subclass", name)
    for thing in (None, 1, "LogisticRegression", [1], {}, object(), classes["LogisticRegression"]):
        must_raise(ctx, "converting %r" % (thing,), convert_estimator, thing)
    ctx.sample = {"classes": tried}


# how the version relates to 0.20 and 0.21
VERSIONS = {
    "0.9": -1, "0.18": -1, "0.19": -1, "0.19.2": -1, "0.19.99": -1, "0.8.1": -1, "0.2": -1, "0.3.1": -1, "0.19.post1": -1,
    "0.20": 0, "0.20.0": 0, "0.20.4": 0, "0.20.99": 0, "0.20.post1": 0, "0.20.10": 0,
    "0.21": 1, "0.21.0": 1, "0.21.3": 1, "0.22.1": 1, "0.22.dev0": 1, "0.24rc1": 1, "0.24.2": 1, "0.100": 1, "1.0": 1,
    "1.0.dev0": 1, "1.3.2": 1, "2.0": 1, "10.1": 1, "0.22.post1": 1, "1.2+local": 1,
}


def _versions(ctx):
    import sklearn.base
    from pure_sklearn.map import convert_estimator

    rng = ctx.rng
    name = rng.choice(["linear", "tree", "boosting", "boosting", "bayes", "preprocess", "text", "dummy", "encoders"])
    if name == "boosting":
        from sklearn.ensemble import GradientBoostingClassifier

        X, y, rows, k = wild._xy(ctx)
        native = GradientBoostingClassifier(n_estimators=2).fit(X, y)
    else:
        native, kind, rows, must, config = wild.BUILDERS[name](ctx)
        if must:
            raise Skip("unsupported anyway")
        if not attempt(ctx, convert_estimator, native)[0]:
            raise Skip("unsupported anyway")
    real = sklearn.base.__version__
    for version, order in sorted(VERSIONS.items()):
        try:
            sklearn.base.__version__ = version
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                ok, out = attempt(ctx, convert_estimator, native)
            said = [str(w.message) for w in caught if "version" in str(w.message)]
        finally:
            sklearn.base.__version__ = real
        ctx.event("versions_tried")
        what = "%s fitted with scikit-learn %s" % (type(native).__name__, version)
        if name == "boosting" and order < 1:
            ctx.require(not ok, what + " was converted; gradient boosting needs 0.21")
            ctx.event("refused_by_declaration")
        elif order < 0:
            ctx.require(not ok or said, what + " was converted without a warning")
            ctx.event("version_warnings")
        else:
            ctx.require(ok, what + " was refused: %r" % out)
            ctx.require(not said, what + ": warned although new enough: %r" % said)
        ctx.state("version", name, version)
    # a minimum asked for by the caller
    clean = [v for v, order in sorted(VERSIONS.items()) if order >= 1 and v.replace(".", "").isdigit()]
    number = lambda v: [int(p) for p in v.split(".")]
    for _ in range(12):
        version, least = rng.choice(clean), rng.choice(clean)
        a, b = number(version), number(least)
        width = max(len(a), len(b))
        less = a + [0] * (width - len(a)) < b + [0] * (width - len(b))
        try:
            sklearn.base.__version__ = version
            ok, out = attempt(ctx, convert_estimator, native, **({"min_version": least}))
        finally:
            sklearn.base.__version__ = real
        ctx.event("minimum_versions_tried")
        what = "%s fitted with scikit-learn %s, min_version=%r" % (type(native).__name__, version, least)
        ctx.require(ok == (not less), what + (": converted" if ok else ": refused"), answer=repr(out)[:200])


def _fasttext(ctx):
    from pure_fasttext import FastText

    rng = ctx.rng
    kind = rng.choice(["supervised", "supervised", "cbow", "skipgram"])
    supervised = kind == "supervised"
    over = {}
    must = False
    if rng.random() < 0.4:
        over["loss"] = rng.choice(["ns", "hs", "ova", "softmax"] if supervised else ["ns", "hs", "softmax"])
    if rng.random() < 0.4:
        lo = rng.choice([1, 2])
        over.update(minn=lo, maxn=lo + rng.choice([0, 2]), bucket=rng.choice([50, 500]))
    if rng.random() < 0.3:
        over.update(wordNgrams=rng.choice([2, 3]), bucket=rng.choice([50, 500]))
    s = fam_ft.make_ft(ctx, kind, **over)
    if over.get("maxn"):
        must = True
    if supervised and (over.get("wordNgrams") or over.get("loss", "softmax") != "softmax"):
        must = True
    if supervised and not must and rng.random() < 0.3:
        try:
            s.native.quantize(cutoff=0, retrain=False)
            over["quantized"] = True
            must = True
        except Exception:
            pass
    ctx.sample = {"kind": kind, "config": over, "must": must}
    if must:
        e = must_raise(ctx, "converting a %s fastText model with %s" % (kind, over), FastText, s.native)
        ctx.event("models_refused")
        ctx.event("refused_by_declaration")
        ctx.state("fasttext", kind, sorted(over), type(e).__name__)
        return
    ok, pure = attempt(ctx, FastText, s.native)
    if not ok:
        ctx.event("models_refused")
        return
    for method in s.methods + ["get_word_vector"]:
        rows = s.rows if method != "get_word_vector" else s.words[:5]
        s.check(ctx, pure, method, rows)
    if not supervised:
        must_raise(ctx, "predicting with an unsupervised model", pure.predict, "the good")
    ctx.state("fasttext", kind, sorted(over), "accepted")


def _unfitted(ctx):
    """ a model which was not fitted is refused, or needs no fitting natively either """
    from sklearn.base import clone
    from sklearn.pipeline import FeatureUnion, Pipeline
    from pure_sklearn.map import convert_estimator

    rng = ctx.rng
    classes = wild.all_native_classes()
    inner = ["LogisticRegression", "GaussianNB", "DecisionTreeClassifier", "DummyClassifier"]
    steps = ["StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer", "SimpleImputer", "OneHotEncoder", "OrdinalEncoder"]

    def build(name):
        if name == "XGBClassifier":
            import xgboost

            return xgboost.XGBClassifier(n_estimators=2)
        if name == "Pipeline":
            return Pipeline([("s%d" % i, build(rng.choice(steps))) for i in range(rng.choice([1, 2]))] + [("last", build(rng.choice(inner + steps)))])
        if name == "FeatureUnion":
            return FeatureUnion([("u%d" % i, build(rng.choice(steps))) for i in range(rng.choice([1, 2]))])
        if name == "BaggingClassifier":
            return classes[name](build(rng.choice(inner)))
        if name == "CountVectorizer" and rng.random() < 0.5:
            return classes[name](vocabulary=["the", "good", "ab"])
        if name == "TfidfTransformer":
            return classes[name](use_idf=rng.random() < 0.5)
        return classes[name]()

    X, y, rows, k = wild._xy(ctx)
    names = sorted(wild.MAPPED)
    for name in rng.sample(names, min(len(names), 12)):
        if name not in classes and name not in ("Pipeline", "FeatureUnion", "XGBClassifier"):
            continue
        native = build(name)
        if name == "Pipeline" and rng.random() < 0.4:
            # fitted but for its last step
            try:
                native.fit(X, y)
                native.steps[-1] = (native.steps[-1][0], clone(native.steps[-1][1]))
            except Exception:
                pass
        if "Vectorizer" in name:
            P = N = [{"a": 1.0}, {"b": 2.0}] if name == "DictVectorizer" else ["the good ab", "ab ab"]
        elif name == "TfidfTransformer":
            N, P = inputs("sparse", [[abs(float(v)) for v in r] for r in X[:3]])
        else:
            N, P = inputs("matrix", [[float(v) for v in r] for r in X[:3]])
        ctx.event("unfitted_models_tried")
        ok, pure = attempt(ctx, convert_estimator, native)
        if not ok:
            ctx.event("models_refused")
            ctx.state("unfitted", name, "refused")
            continue
        for method in METHODS:
            ok, out = attempt(ctx, lambda: getattr(pure, method)(P))
            if not ok:
                continue
            try:
                ref = plain(getattr(native, method)(N))
            except Exception as e:
                ctx.fail("%s, not fitted: %s answers, natively %s" % (name, method, type(e).__name__), got=out, model=repr(native))
            ctx.require(close(plain(out), ref), "%s, not fitted: %s is not the native answer" % (name, method), got=out, native=ref)
            ctx.event("unfitted_answers")
            ctx.state("unfitted", name, method)


CASES = {name: (_wild(name), 60, 2400) for name in wild.BUILDERS}
CASES["classes"] = (_classes, 8, 8)
CASES["versions"] = (_versions, 12, 120)
CASES["unfitted"] = (_unfitted, 24, 600)
CASES["fasttext"] = (_fasttext, 50, 1500)
