""" C05: xgboost """

from .. import fam_tree
from ..core import big_cases

RULE = (
    "A case fits one native XGBClassifier (features 1..120, named or not, missing markers, base score, pruning, parallel "
    "trees, early stopping, single leaves) and compares labels and probabilities on training rows, rows exactly on and "
    "next to split values and rows with missing entries. Distinct: configurations with the number of split values used."
)
QUICK_SCALE = 3.5
REQUIRED = {"big_cases": 5, 
    "answers_compared": 1500, "rows_with_missing": 50, "pruned_trees_with_gaps": 1, "early_stopped_models": 1,
    "splits_on_feature_10_or_more": 20,
}


def _run(kind):
    def case(ctx):
        s = fam_tree.make_xgb(ctx, kind)
        pure = s.convert(ctx)
        for method in s.methods:
            s.check(ctx, pure, method, s.rows)
        ctx.event("rows_with_missing", s.n_missing)
        ctx.event("pruned_trees_with_gaps", s.pruned_trees)
        ctx.event("splits_on_feature_10_or_more", sum(1 for f, _ in s.splits if f >= 10))
        if "best_iteration" in s.config:
            ctx.event("early_stopped_models", int(s.config["best_iteration"] + 1 < s.config["n_estimators"]))
        ctx.state(repr(sorted(s.config.items(), key=str)), len(s.splits))

    return case


CASES = {kind: (_run(kind), 24, 700) for kind in fam_tree.XGB_KINDS}
CASES.update(big_cases(CASES, QUICK_SCALE, 6))
