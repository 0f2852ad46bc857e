""" C01: linear classifiers against the native scores, labels and probabilities """

from .. import fam_linear
from ..core import big_cases

RULE = (
    "A case fits one native linear classifier (9 kinds x classes x features x label type x intercept), "
    "possibly replaces its weights by hostile ones (dyadic with exact ties, all zero, identical classes, "
    "scores in +-800 and up to 2^900), and compares every method on dense and sparse rows with the native "
    "answer. Distinct non-trivial: different (family, method, classes, score magnitude, weight regime)."
)
ASSUMPTIONS = ["scikit-learn 0.23.2 as installed is the reference", "error bound of a dot product: 4(d+4) eps sum|x w|"]
QUICK_SCALE = 20
REQUIRED = {"big_cases": 5, 
    "answers_compared": 200, "rows_with_tied_scores": 20, "scores_exactly_zero": 20,
    "probabilities_saturated": 20, "method:predict_log_proba": 20,
}


def _run(kind):
    def case(ctx):
        s = fam_linear.make(ctx, kind)
        pure = s.convert(ctx)
        for method in s.methods:
            s.check(ctx, pure, method, s.rows)
            s.check(ctx, pure, method, s.rows, sparse=True)
        ctx.state(s.family, *sorted(map(str, s.config.items())))
        ctx.event("models")

    return case


CASES = {kind: (_run(kind), 120, 4000) for kind in fam_linear.KINDS}
CASES.update(big_cases(CASES, QUICK_SCALE, 4))
