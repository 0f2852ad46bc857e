""" C04: gradient boosting """

from .. import fam_tree
from ..core import big_cases

RULE = (
    "A case fits one native gradient boosting classifier (loss x classes x learning rate x depth x stages x initial "
    "estimator x weights, with regimes for exact ties and for raw scores beyond exp()) and compares labels, "
    "probabilities and log-probabilities on training, threshold-boundary and random rows. Distinct: configurations with "
    "the raw score magnitude."
)
QUICK_SCALE = 6
REQUIRED = {"big_cases": 5, "answers_compared": 2000, "rows_with_tied_raw_scores": 50, "rows_with_huge_raw_scores": 50}


def _run(kind):
    def case(ctx):
        s = fam_tree.make_gb(ctx, kind)
        pure = s.convert(ctx)
        for method in s.methods:
            s.check(ctx, pure, method, s.rows)
        ctx.event("rows_with_tied_raw_scores", len(s.rows) if s.tied else 0)
        ctx.event("rows_with_huge_raw_scores", len(s.rows) if s.raw_magnitude > 750 else 0)
        ctx.state(repr(sorted(s.config.items(), key=str)), round(s.raw_magnitude, 3))

    return case


CASES = {kind: (_run(kind), 50, 1500) for kind in fam_tree.GB_KINDS}
CASES.update(big_cases(CASES, QUICK_SCALE, 5))
