""" C08: one-hot and ordinal encoders """

import numpy as np

from .. import fam_prep
from ..core import big_cases, call, must_raise
from ..subject import native_list

RULE = (
    "A case fits one native encoder (string, integer, float and boolean columns, 1..15 categories, given or found "
    "categories, every dtype) and compares the encoded matrix of rows of known and, where ignored, unknown categories; "
    "'unknown' cases place one unknown category in one cell and observe that both sides refuse. Distinct: configuration."
)
QUICK_SCALE = 56
REQUIRED = {"big_cases": 5, "answers_compared": 1000, "unknown_categories": 100, "refusals_observed": 100}


def _run(kind):
    def case(ctx):
        s = fam_prep.make_encoder(ctx, kind)
        pure = s.convert(ctx)
        out = s.check(ctx, pure, "transform", s.rows)
        ctx.event("unknown_categories", s.n_unknown)
        # every row on its own, so that a block of unknowns fills a batch
        for row in s.rows[:4]:
            s.check(ctx, pure, "transform", [row])
        ctx.state(repr(sorted(s.config.items(), key=str)))

    return case


def _unknown(ctx):
    s = fam_prep.make_encoder(ctx)
    if s.config["handle_unknown"] == "ignore":
        s.native.handle_unknown = "error"
        s.rows = [[v if v in k else k[0] for v, k in zip(row, s.known)] for row in s.rows]
    pure = s.convert(ctx)
    s.check(ctx, pure, "transform", s.rows)
    i = ctx.rng.randrange(len(s.rows))
    j = ctx.rng.randrange(len(s.known))
    bad = [list(r) for r in s.rows]
    v = s.known[j][0]
    bad[i][j] = "never seen" if isinstance(v, str) else (12345.75 if isinstance(v, float) else -987654321)
    try:
        s.native.transform(s.native_input(bad))
        native_refuses = False
    except Exception:
        native_refuses = True
    if native_refuses:
        must_raise(ctx, "%s with an unknown category" % s.family, pure.transform, bad)
        ctx.state("unknown", repr(s.config), i, j)


CASES = {
    "onehot": (_run("onehot"), 200, 8000),
    "ordinal": (_run("ordinal"), 150, 6000),
    "unknown": (_unknown, 150, 5000),
}
CASES.update(big_cases(CASES, QUICK_SCALE))
