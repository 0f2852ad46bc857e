""" C11: hashing vectorizer """

from .. import fam_text
from ..core import Skip, big_cases, call
from ..subject import convert

RULE = (
    "A case builds one native hashing vectorizer (width 1..2^31-1, norm, sign, binary, analyser) and compares the hashed "
    "matrix; 'edge' uses tokens constructed to have chosen murmur3 values (0, 1, -1, INT_MIN, INT_MAX, +-width), 'lengths' "
    "tokens of every block/tail length in one to four byte scripts. Distinct: non-identical document rows observed."
)
QUICK_SCALE = 11.9
REQUIRED = {"big_cases": 5, "answers_compared": 800, "tokens_with_chosen_hash": 60, "entries_compared": 4000,
            "rows_with_repeated_or_weighted_entries": 300}


def _run(kind):
    def case(ctx):
        s = fam_text.make_hashing(ctx, kind)
        pure = s.convert(ctx)
        s.check(ctx, pure, "transform", s.rows)
        for doc in s.rows[:3]:
            s.check(ctx, pure, "transform", [doc])

    return case


def _lowest(ctx):
    """
    The one hash without a positive counterpart: the native library reports a
    negative column for it, so only the place and the size are checked.
    """
    from sklearn.feature_extraction.text import HashingVectorizer

    word = fam_text.token_with_hash(ctx.rng, -2 ** 31)
    if word is None:
        raise Skip("no token found")
    n = ctx.rng.choice([1, 2, 3, 7, 255, 1000, 2 ** 20, 2 ** 31 - 1])
    pure = call(ctx, "converting", convert, HashingVectorizer(n_features=n, norm=None))
    for reps in (1, 3):
        out = call(ctx, "transform", pure.transform, [" ".join([word] * reps)])
        ctx.require(
            len(out) == 1 and len(out[0]) == 1 and all(0 <= k < n and abs(v) == reps for k, v in out[0].items()),
            "token with hash -2**31 gives %r for width %d" % (out, n),
        )
    ctx.event("tokens_with_lowest_hash")
    ctx.state(word, n)


CASES = {"lowest": (_lowest, 16, 300), "any": (_run("any"), 200, 8000), "edge": (_run("edge"), 60, 1500), "lengths": (_run("lengths"), 80, 4000)}
CASES.update(big_cases(CASES, QUICK_SCALE))
