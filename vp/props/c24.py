""" C24: probabilities are well formed on any finite input """

import math

import numpy as np

from .. import data, fam_ft, zoo
from ..core import Skip, big_cases, call
from ..subject import is_sparse, native_list

RULE = (
    "A case converts one probabilistic classifier and asks for probabilities, log-probabilities and labels of rows of every "
    "magnitude (denormal to the largest doubles, one-sided overflows, training rows scaled up and down). Wherever the native "
    "model answers with finite numbers (and for trees, which the native model does not even evaluate there, always) the "
    "answer must not raise, each probability must be a float in [0, 1], a row must sum to 1, logarithms must match and the "
    "predicted label must have the highest probability. Distinct: probability rows."
)
QUICK_SCALE = 5.6
REQUIRED = {"rows_checked": 3000, "extreme_rows": 1500, "saturated_rows": 300}

MAX = 1.7976931348623157e308
F32 = 3.4028234e38


def extreme_rows(ctx, s, limit):
    rng = ctx.rng
    d = len(s.rows[0])
    base = [list(r) for r in s.rows[:3]]
    out = []
    exps = [e for e in (-320, -300, -160, -40, -8, 0, 3, 8, 20, 37, 38, 39, 100, 154, 155, 200, 300, 307, 308) if e <= limit]
    for _ in range(16):
        u = rng.random()
        if u < 0.3:
            row = [0.0] * d
            row[rng.randrange(d)] = rng.choice([1, -1]) * rng.choice([1.0, 1.7]) * 10.0 ** rng.choice(exps)
        elif u < 0.6:
            e = rng.choice(exps)
            row = [(ctx.np.randn() * 10.0 ** min(e, 307)) for _ in range(d)]
        elif u < 0.8:
            row = [rng.choice([0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324]) * rng.choice([1.0, 10.0 ** rng.choice(exps)]) for _ in range(d)]
        else:
            k = 10.0 ** rng.choice([e for e in exps if e <= limit - 3])
            row = [v * k for v in rng.choice(base)]
        row = [float(v) if math.isfinite(v) else (MAX if limit > 300 else 10.0 ** limit) for v in row]
        out.append(row)
    return out


def magnitude(native):
    """
    How large numbers may be (decimal exponent).  Where linear scores are an
    ingredient, their rounding errors must not decide whether the rest of the
    computation is defined at all.
    """
    name = type(native).__name__
    if name == "BaggingClassifier":
        return 308 if all("Tree" in type(m).__name__ for m in native.estimators_) else 8
    if name == "GradientBoostingClassifier":
        return 308 if type(native.init_).__name__ == "DummyClassifier" else 8
    return 8 if name in ("Pipeline", "FeatureUnion") else 308


def normalisable(native, X):
    """ naive Bayes scores which are not so large that their differences are lost """
    if hasattr(native, "_joint_log_likelihood"):
        return bool(np.max(np.abs(native._joint_log_likelihood(X))) < 1e6)
    if type(native).__name__ == "Pipeline":
        for _, step in native.steps[:-1]:
            X = step.transform(X)
        return normalisable(native.steps[-1][1], X)
    if type(native).__name__ == "BaggingClassifier":
        return all(normalisable(m, X[:, f]) for m, f in zip(native.estimators_, native.estimators_features_))
    return True


def finite(rows):
    try:
        return bool(np.all(np.isfinite(np.array(rows, dtype=float))))
    except (TypeError, ValueError):
        return False


def check_rows(ctx, what, classes, P, L, labels, total=True, **det):
    """ the invariants themselves """
    for i, p in enumerate(P):
        ctx.require(isinstance(p, list) and len(p) == len(classes), what + ": row %d has no probability per class" % i, got=p, **det)
        for v in p:
            ctx.require(
                type(v) is float and v == v and 0.0 <= v <= 1.0, what + ": %r is not a probability" % (v,), got=p, **det
            )
        # scores of 1e200 cannot be normalised, neither natively nor here
        ctx.event("sums_lost_natively", int(not total))
        ctx.require(not total or abs(math.fsum(p) - 1.0) <= 1e-9, what + ": probabilities sum to %r" % math.fsum(p), got=p, **det)
        if max(p) == 1.0:
            ctx.event("saturated_rows")
        if L is not None:
            ctx.require(len(L[i]) == len(p), what + ": wrong number of log-probabilities", **det)
            for v, l in zip(p, L[i]):
                ctx.require(type(l) is float and l == l and l <= 1e-12, what + ": %r is not a log-probability" % (l,), got=L[i], **det)
                if v < 1e-300:
                    good = l < -690.0
                else:
                    good = abs(l - math.log(v)) <= 1e-9 * (1.0 + abs(l)) + 4e-16 / v
                ctx.require(good, what + ": the logarithm of %r is given as %r" % (v, l), p=p, log=L[i], **det)
        if labels is not None:
            ctx.require(any(type(c) is type(labels[i]) and c == labels[i] for c in classes), what + ": unknown label", got=labels[i], **det)
            at = [j for j, c in enumerate(classes) if type(c) is type(labels[i]) and c == labels[i]][0]
            ctx.require(
                p[at] >= max(p) - 1e-9, what + ": label %r has probability %r, another one %r" % (labels[i], p[at], max(p)), p=p, **det
            )
        ctx.event("rows_checked")
        ctx.state([round(v, 9) for v in p], det.get("family"))


def _run(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, rng.choice([2, 5]))
        if "predict_proba" not in s.methods:
            raise Skip("no probabilities")
        pure = s.convert(ctx)
        rows = zoo.usable_rows(ctx, s, 4)
        extreme = []
        numeric = s.kind == "matrix" and not getattr(s, "object_rows", False) and all(
            isinstance(v, (int, float)) for r in s.rows for v in r
        )
        if numeric and s.rows and s.rows[0]:
            extreme = extreme_rows(ctx, s, magnitude(s.native))
            if s.family in ("MultinomialNB", "ComplementNB"):
                extreme = [[abs(v) for v in r] for r in extreme]
        classes = s.classes()
        forest = s.family in ("DecisionTreeClassifier", "ExtraTreeClassifier", "RandomForestClassifier", "ExtraTreesClassifier")
        forms = zoo.modes(s)
        for row in rows + extreme:
            if family == "linear":
                W = np.abs(np.atleast_2d(s.native.coef_))
                with np.errstate(all="ignore"):
                    if not np.all(np.abs(np.array(row, dtype=float)) @ W.T < 1e307):
                        # the order of summation decides about overflow
                        ctx.event("rows_near_overflow")
                        continue
                    if len(W) > 1 and np.max(np.abs(np.array(row, dtype=float)) @ W.T) > 1e13:
                        # rounding of scores may turn one-versus-rest scores into all zeros
                        if not s.multinomial():
                            ctx.event("rows_with_lost_scores")
                            continue
            try:
                # native trees do not evaluate rows beyond single precision
                asked = [min(max(v, -F32), F32) for v in row] if forest and numeric else row
                ref = native_list(s.native.predict_proba(s.native_input([asked])))
            except Exception:
                ref = [[math.nan]]
            usable = finite(ref)
            if usable and not all(0.0 <= v <= 1.0 for v in ref[0]):
                ctx.event("rows_ill_formed_natively")  # e.g. trees fitted with negative weights
                continue
            total = usable and abs(math.fsum(ref[0]) - 1.0) <= 1e-10
            if total:
                total = normalisable(s.native, s.native_input([row]))
            if not usable:
                ctx.event("rows_without_native_answer")
                continue
            judge_label = "predict" in s.methods
            if judge_label and forest:
                # leaves with negative weights natively disagree with their own probabilities
                at = classes.index(s.native.predict(s.native_input([asked])).tolist()[0])
                judge_label = ref[0][at] >= max(ref[0]) - 1e-9
            for sparse in forms:
                what = "%s of %r%s" % (s.family, row, " (sparse)" if sparse else "")
                P = call(ctx, what + ": predict_proba", s.apply, pure, "predict_proba", [row], sparse)
                L = labels = None
                if "predict_log_proba" in s.methods:
                    L = call(ctx, what + ": predict_log_proba", s.apply, pure, "predict_log_proba", [row], sparse)
                if judge_label:
                    labels = call(ctx, what + ": predict", s.apply, pure, "predict", [row], sparse)
                check_rows(ctx, what, classes, P, L, labels, total, family=s.family, config=s.config)
            if row in extreme:
                ctx.event("extreme_rows")

    return case


def _fasttext(ctx):
    s = fam_ft.make_ft(ctx, "supervised")
    pure = s.convert(ctx)
    for text in s.rows + [" ".join([w] * 300) for w in s.words[:2]]:
        labels, scores = call(ctx, "predict %r" % text, pure.predict, text, -1)
        if not labels:
            continue
        what = "fastText prediction of %r" % text
        check_rows(ctx, what, list(labels), [list(scores)], None, [labels[0]], family="FastText", config=s.config)
        ctx.require(set(labels) == set(s.native.get_labels()), what + ": not every label", got=labels)


CASES = {f: (_run(f), 40, 2500) for f in zoo.CLASSIFIERS}
CASES["linear"] = (CASES["linear"][0], 90, 4000)
CASES["nb"] = (CASES["nb"][0], 80, 4000)
CASES["gb"] = (CASES["gb"][0], 60, 2500)
CASES["fasttext"] = (_fasttext, 20, 800)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.CLASSIFIERS or k == "fasttext"}, QUICK_SCALE, 5, 60))
