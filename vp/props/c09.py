""" C09: imputers and indicators """

import numpy as np

from .. import fam_prep
from ..core import Skip, attempt, big_cases, must_raise

RULE = (
    "A case fits one native imputer or missing indicator (strategy, marker NaN/number/string/None, indicator settings, "
    "columns without any observed value) and compares transform() on rows with random missingness patterns, including "
    "values one rounding step beside the marker; 'new_missing' cases let columns be missing for the first time and "
    "compare results and refusals. Distinct: configuration with the missingness patterns of the first rows."
)
QUICK_SCALE = 45
REQUIRED = {"big_cases": 5, "answers_compared": 1000, "refusals_observed": 15, "imputed_cells": 1000}


def _run(kind):
    def case(ctx):
        s = fam_prep.make_imputer(ctx, kind)
        pure = s.convert(ctx)
        s.check(ctx, pure, "transform", s.rows)
        ctx.event("imputed_cells", sum(1 for row in s.rows for v in row if s.is_marker(v)))
        for row in s.rows[:3]:
            s.check(ctx, pure, "transform", [row])

    return case


def _new_missing(ctx):
    s = fam_prep.make_imputer(ctx, "indicator", new_missing=True)
    pure = s.convert(ctx)
    for rows in [s.rows] + [[r] for r in s.rows[:3]]:
        try:
            ref = s.native.transform(s.native_input(rows)).tolist()
        except Exception as e:
            must_raise(ctx, "%s for newly missing columns" % s.family, pure.transform, s.pure_input(rows))
            continue
        s.check(ctx, pure, "transform", rows)


CASES = {kind: (_run(kind), 120, 5000) for kind in fam_prep.IMPUTER_KINDS}
CASES["new_missing"] = (_new_missing, 150, 5000)
CASES.update(big_cases(CASES, QUICK_SCALE))
