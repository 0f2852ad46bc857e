""" C15: unsupervised fastText vectors """

from .. import fam_ft
from ..core import big_cases, call

RULE = (
    "A case trains one native cbow/skipgram model without subwords and compares word ids, word vectors and sentence "
    "vectors on lines with every separator, unknown words only, no words, repeated words and long lines. Distinct: rounded "
    "vectors observed."
)
QUICK_SCALE = 11
REQUIRED = {"big_cases": 5, "answers_compared": 1000, "zero_vectors": 30}


def _case(kind):
    def case(ctx):
        s = fam_ft.make_ft(ctx, kind)
        pure = s.convert(ctx)
        rows = s.rows + [" ".join([ctx.rng.choice(s.words)] * 5), " ".join(ctx.rng.choice(s.words) for _ in range(400))]
        s.check(ctx, pure, "get_sentence_vector", rows)
        words = s.words + ["", "unseen", "</s>", " ", "日本", "THE"]
        s.check(ctx, pure, "get_word_vector", words)
        for w in words:
            ctx.require(
                call(ctx, "get_word_id", pure.get_word_id, w) == s.native.get_word_id(w), "word id of %r differs" % w,
            )

    return case


CASES = {"cbow": (_case("cbow"), 40, 1200), "skipgram": (_case("skipgram"), 40, 1200)}
CASES.update(big_cases(CASES, QUICK_SCALE))
