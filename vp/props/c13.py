""" C13: pipelines and feature unions """

from .. import fam_pipe
from ..core import big_cases, call
from ..subject import Subject, convert, fit_or_skip

RULE = (
    "A case builds a random native pipeline or feature union (nested up to three levels; numeric, missing, text, mapping and "
    "categorical inputs; weighted unions; dense, sparse and mixed blocks), fits it, and compares every offered method on "
    "training and new rows; 'offers' compares the methods a converted pipeline offers with those of its final step. Rows "
    "whose native answer changes when the final step's input moves by rounding are left out and counted. Distinct: shapes "
    "with observed answers."
)
QUICK_SCALE = 17.5
REQUIRED = {"big_cases": 5, "answers_compared": 1500, "weighted_unions": 40, "mixed_unions": 10, "pipelines_with_methods_compared": 80,
            "blocks_without_columns": 10}


def _run(kind):
    def case(ctx):
        s = fam_pipe.make_pipe(ctx, kind)
        pure = s.convert(ctx)
        for method in s.methods:
            s.check(ctx, pure, method, s.rows)
        if kind == "pipeline":
            final = call(ctx, "converting the final step", convert, s.native.steps[-1][1])
            for name in fam_pipe.METHODS:
                a, b = callable(getattr(pure, name, None)), callable(getattr(final, name, None))
                ctx.require(a == b, "pipeline offers %s: %s, its final step: %s" % (name, a, b), config=s.config)
                c = callable(getattr(s.native, name, None))
                ctx.require(a == c, "pipeline offers %s: %s, the native pipeline: %s" % (name, a, c), config=s.config)
            if s.classifier:
                ctx.require(pure.classes_ == s.native.classes_.tolist(), "classes_ differ", got=pure.classes_)
            ctx.event("pipelines_with_methods_compared")

    return case


def _no_columns(ctx):
    """ blocks without any column next to dense and sparse ones """
    from sklearn.ensemble import RandomForestClassifier
    from sklearn.feature_extraction import DictVectorizer
    from sklearn.impute import MissingIndicator
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import MaxAbsScaler, Normalizer, OneHotEncoder

    rng, r = ctx.rng, ctx.np
    d = rng.choice([1, 2, 4])
    X = r.randint(0, 4, (30, d)).astype(float)
    y = r.randint(0, 2, 30)
    blocks = [
        ("none", MissingIndicator(missing_values=-99, features="missing-only", error_on_new=rng.random() < 0.5)),
        ("hot", OneHotEncoder(handle_unknown="ignore", sparse=rng.random() < 0.7)),
        ("same", rng.choice([Normalizer, MaxAbsScaler])()),
        ("none too", MissingIndicator(missing_values=-98, features="missing-only", error_on_new=False)),
    ]
    blocks = rng.sample(blocks, rng.choice([2, 3, 4]))
    weights = {name: rng.choice([0.5, 2, -1.0]) for name, _ in blocks} if rng.random() < 0.3 else None
    est = FeatureUnion(blocks, transformer_weights=weights)
    final = rng.choice([None, None, LogisticRegression(solver="liblinear"), RandomForestClassifier(3, random_state=1)])
    if final is not None:
        est = Pipeline([("u", est), ("clf", final)])
    fit_or_skip(est, X, y)
    config = {"blocks": [n for n, _ in blocks], "weights": weights, "final": type(final).__name__}
    methods = ["transform"] if final is None else ["predict", "predict_proba"]
    s = Subject(ctx, type(est).__name__, est, X[: rng.choice([1, 4])].tolist(), methods, config, classifier=final is not None)
    pure = s.convert(ctx)
    for method in s.methods:
        s.check(ctx, pure, method, s.rows)
    if sum(1 for n, _ in blocks if n.startswith("none")):
        ctx.event("blocks_without_columns")
    ctx.state(repr(config), d)


CASES = {"pipeline": (_run("pipeline"), 200, 6000), "transform": (_run("transform"), 120, 4000), "union": (_run("union"), 160, 6000),
         "no_columns": (_no_columns, 40, 600)}
CASES.update(big_cases(CASES, QUICK_SCALE))
