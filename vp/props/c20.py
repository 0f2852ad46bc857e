""" C20: a batch is its rows """

from .. import zoo
from ..core import Skip, big_cases
from ..subject import equal, is_sparse

RULE = (
    "A case draws one model of a family and compares, bit for bit, each method's answer for a batch with the answers for "
    "every row alone, for a permutation, for duplicated rows and for sub-batches, dense and sparse; the number and order of "
    "answers is checked. Distinct: models with the observed batch answers."
)
QUICK_SCALE = 3.5
REQUIRED = {"batches_compared": 800, "single_rows_compared": 2000, "large_batches": 20}


def _answer(ctx, s, pure, method, rows, sparse):
    status, out = zoo.answer(s, pure, method, rows, sparse)
    ctx.event("calls")
    if status != "ok":
        return None, "raised"
    meta = (out.size, out.dtype) if is_sparse(out) else None
    parts = s.split(method, out)
    ctx.require(
        len(parts) == len(rows), "%s.%s: %d answers for %d rows" % (s.family, method, len(parts), len(rows)), config=s.config
    )
    return parts, meta


def _run(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, rng.choice([2, 3, 8]))
        pure = s.convert(ctx)
        rows = zoo.usable_rows(ctx, s, 14)
        for method in zoo.methods(s):
            for sparse in zoo.modes(s):
                what = "%s.%s%s" % (s.family, method, " (sparse)" if sparse else "")
                full, meta = _answer(ctx, s, pure, method, rows, sparse)
                alone = []
                refused = 0
                for row in rows:
                    one, m = _answer(ctx, s, pure, method, [row], sparse)
                    alone.append(None if one is None else one[0])
                    refused += one is None
                    if one is not None and full is not None:
                        ctx.require(m == meta, what + ": one row gives columns %r, the batch %r" % (m, meta))
                if full is None:
                    ctx.require(refused > 0, what + ": the batch is refused, but none of its rows", config=s.config)
                    continue
                ctx.require(refused == 0, what + ": a row of an accepted batch is refused", config=s.config)
                for i, (a, b) in enumerate(zip(full, alone)):
                    ctx.event("single_rows_compared")
                    if not equal(a, b):
                        ctx.fail("%s: row %d of %d is %r, alone %r" % (what, i, len(rows), a, b), row=rows[i], config=s.config)
                ctx.counters["oracle_evaluations"] += len(rows)
                perm = list(range(len(rows)))
                rng.shuffle(perm)
                picks = [perm, [rng.randrange(len(rows)) for _ in range(2 * len(rows))], perm[: max(1, len(perm) // 2)],
                         [0] * 3 + perm]
                if rng.random() < 0.1:
                    picks.append([rng.randrange(len(rows)) for _ in range(rng.choice([130, 300, 1100]))])
                    ctx.event("large_batches")
                for pick in picks:
                    got, _ = _answer(ctx, s, pure, method, [rows[i] for i in pick], sparse)
                    ctx.event("batches_compared")
                    ctx.require(got is not None, what + ": a reordered batch is refused", config=s.config)
                    for j, i in enumerate(pick):
                        ctx.counters["oracle_evaluations"] += 1
                        if not equal(got[j], full[i]):
                            ctx.fail(
                                "%s: row %d at place %d of a batch of %d is %r, else %r"
                                % (what, i, j, len(pick), got[j], full[i]), row=rows[i], config=s.config
                            )
                ctx.state(family, method, sparse, repr(full)[:500])

    return case


QUICK = {"ft_supervised": 12, "ft_unsupervised": 12, "xgb": 20, "gb": 25, "pipe": 60}
CASES = {f: (_run(f), QUICK.get(f, 40), QUICK.get(f, 40) * 30) for f in zoo.ZOO}
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
