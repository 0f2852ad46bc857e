""" C06: naive Bayes and dummy """

from .. import fam_nb
from ..core import big_cases

RULE = (
    "A case fits one native naive Bayes or dummy classifier (priors, smoothing, weights, partial fits, equal classes) and "
    "compares labels, posteriors and log-posteriors on ordinary, very unlikely and very long rows with a rounding bound "
    "derived from the joint log-likelihood terms. Distinct: (family, classes, likelihood magnitude, rounded posterior)."
)
QUICK_SCALE = 20
REQUIRED = {"big_cases": 5, 
    "answers_compared": 1500, "rows_with_tied_likelihoods": 50, "rows_with_underflowing_likelihoods": 200,
}


def _run(kind):
    def case(ctx):
        s = fam_nb.make_nb(ctx, kind)
        pure = s.convert(ctx)
        for method in s.methods:
            s.check(ctx, pure, method, s.rows)
            if s.sparse_ok:
                s.check(ctx, pure, method, s.rows, sparse=True)
        ctx.state(repr(sorted(s.config.items(), key=str)))

    return case


CASES = {kind: (_run(kind), 80, 3000) for kind in fam_nb.NB_KINDS}
CASES.update(big_cases(CASES, QUICK_SCALE, 3))
