""" C03: forests and bagging """

from .. import fam_tree
from ..core import big_cases

RULE = (
    "A case fits one native random forest, extra-trees or bagging classifier (feature subsets, repeated features, "
    "non-tree members, members without some classes) and compares labels, probabilities and log-probabilities on "
    "training, threshold-boundary and random rows, dense and (where members accept it) sparse. Distinct: configurations "
    "with their sets of predicted labels."
)
QUICK_SCALE = 4.5
REQUIRED = {"big_cases": 5, "answers_compared": 2000, "members_missing_classes": 20, "sparse_answers": 200}


def _run(kind):
    def case(ctx):
        s = fam_tree.make_ensemble(ctx, kind)
        pure = s.convert(ctx)
        ctx.event("members_missing_classes", s.missing)
        labels = None
        for method in s.methods:
            out = s.check(ctx, pure, method, s.rows)
            if method == "predict":
                labels = sorted(set(map(repr, out)))
            if s.sparse_ok:
                s.check(ctx, pure, method, s.rows, sparse=True)
                ctx.event("sparse_answers", len(s.rows))
        ctx.state(repr(sorted(s.config.items(), key=str)), labels)

    return case


CASES = {kind: (_run(kind), 60, 2000) for kind in fam_tree.ENSEMBLES}
CASES.update(big_cases(CASES, QUICK_SCALE, 4))
