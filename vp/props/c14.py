""" C14: supervised fastText """

from .. import fam_ft
from ..core import big_cases, call, must_raise

RULE = (
    "A case trains one native supervised model (label prefixes, 1..12 labels, odd words) and compares predict() for k in "
    "-1, 1, 2, 3, all and thresholds (including ones equal to a native score), single lines and lists, and sentence and "
    "word vectors, on lines with every separator, end-of-sentence words, labels and unknown words. Distinct: rounded "
    "answers observed."
)
QUICK_SCALE = 12
REQUIRED = {"big_cases": 5, "answers_compared": 1000, "labels_compared": 2000, "empty_predictions": 5, "threshold_predictions": 200, "exact_thresholds": 30, "list_predictions": 200}
ASSUMPTIONS = ["native scores are the model probability plus 1e-5, in single precision"]


def _case(ctx):
    s = fam_ft.make_ft(ctx, "supervised")
    pure = s.convert(ctx)
    rng = ctx.rng
    s.rows.append(" ".join(rng.choice(s.words + ["unseen"]) for _ in range(rng.choice([130, 600]))))
    for method in s.methods:
        s.check(ctx, pure, method, s.rows)
    # (natively, the vector of a label is read from beyond the matrix)
    s.check(ctx, pure, "get_word_vector", s.words + ["", "unseen", "</s>"])
    for row in s.rows:
        every = s.native_predict(row, -1, 0.0)
        for k in sorted({1, 2, -1, rng.randint(1, 14)}):
            threshold = 0.0
            u = rng.random()
            if u < 0.3:
                threshold = rng.choice([0.1, 0.3, 0.5, 0.9, 1.1])
            elif u < 0.5 and every:
                # half way between two native scores
                p = sorted(p for p, _ in every)
                threshold = (p[rng.randrange(len(p))] + p[rng.randrange(len(p))]) / 2
            got = call(ctx, "predict", pure.predict, row, k=k, threshold=threshold)
            ctx.event("answers_compared")
            if threshold:
                ctx.event("threshold_predictions")
            s.verify_prediction(ctx, row, got, k, threshold)
            if rng.random() < 0.4:
                # every text of a list is predicted with the same k and threshold
                lines = [row] + rng.sample(s.rows, rng.randint(0, len(s.rows)))
                rng.shuffle(lines)
                many = call(ctx, "predict of a list", pure.predict, list(lines), k, threshold)
                ctx.require(len(many) == 2 and len(many[0]) == len(many[1]) == len(lines), "predict of a list: wrong size", got=many)
                for line, labels, scores in zip(lines, *many):
                    s.verify_prediction(ctx, line, (labels, scores), k, threshold)
                ctx.event("list_predictions")
    for word in s.words + ["", "unseen", "</s>", "__label__", "\u00e9"]:
        i = call(ctx, "get_word_id", pure.get_word_id, word)
        ctx.require(i == s.native.get_word_id(word), "get_word_id of %r is %r, native %r" % (word, i, s.native.get_word_id(word)))
    # every probability is exactly 1 / n: the threshold itself is reached
    n = len(s.native.get_labels())
    if n == 1 or (s.weights == "uniform" and n in (2, 4)):
        for threshold in (1.0 / n, 1.0 / n + 1e-7, 1.0 / n - 1e-7):
            for row in s.rows:
                got = call(ctx, "predict", pure.predict, row, k=-1, threshold=threshold)
                s.verify_prediction(ctx, row, got, -1, threshold, exact=threshold == 1.0 / n or threshold < 1.0 / n)
                ctx.event("exact_thresholds")
    for k in (0, -2, -100):
        must_raise(ctx, "predict with k=%d" % k, pure.predict, s.rows[0], k=k)
    # defaults
    got = call(ctx, "predict", pure.predict, s.rows[0])
    s.verify_prediction(ctx, s.rows[0], got, 1, 0.0)


CASES = {"supervised": (_case, 90, 2500)}
CASES.update(big_cases(CASES, QUICK_SCALE))
