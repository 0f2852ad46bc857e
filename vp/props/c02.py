""" C02: single trees """

from .. import fam_tree
from ..core import big_cases

RULE = (
    "A case fits one native tree (4 classes x criteria x splitters x depth/leaf limits x weights x data regimes) "
    "and feeds training rows plus rows placed on thresholds and on every double next to a single-precision "
    "rounding boundary of a threshold, at a node the row really reaches; dense and sparse answers are compared "
    "with the native tree. Distinct: (config, answer) pairs."
)
QUICK_SCALE = 27.5
REQUIRED = {"big_cases": 5, "answers_compared": 2000, "boundary_rows": 500, "leaf_class_ties": 5}


def _run(kind):
    def case(ctx):
        s = fam_tree.make_tree(ctx, kind)
        pure = s.convert(ctx)
        for method in s.methods:
            s.check(ctx, pure, method, s.rows)
            s.check(ctx, pure, method, s.rows, sparse=True)
        ctx.event("boundary_rows", len(s.rows) if s.splits else 0)
        if s.classifier:
            for v in s.native.tree_.value[:, 0, :].tolist():
                ctx.event("leaf_class_ties", int(len(v) > 1 and sorted(v)[-1] == sorted(v)[-2]))
        for leaf in set(s.native.apply(s.native_input(s.rows)).tolist()):
            ctx.state(repr(sorted(s.config.items(), key=str)), leaf)

    return case


CASES = {kind: (_run(kind), 150, 5000) for kind in fam_tree.TREES}
CASES.update(big_cases(CASES, QUICK_SCALE))
