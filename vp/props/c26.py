""" C26: input of the wrong width or shape is refused """

import collections

import numpy as np

from .. import data, fam_ft, fam_pipe, fam_text, zoo
from ..core import Skip, big_cases, call, must_raise
from ..subject import convert, new_sparse, sparse_rows

RULE = (
    "A case converts one model, sees every method answer well-formed input, and then hands it malformed input: every row wider, "
    "narrower or without columns, dense or sparse (where only the declared size tells), a single row of another width at each "
    "place of a batch, an empty batch (dense or sparse), other containers (tuples, arrays, iterators, mappings, strings, None), "
    "bare strings for vectorizers and text of several lines for fastText. Each such call has to raise. Distinct: pairs of a "
    "model configuration and a kind of malformed input."
)
QUICK_SCALE = 8.8
REQUIRED = {
    "refused:width": 3000, "refused:ragged": 1000, "refused:sparse width": 300, "refused:empty": 500, "refused:container": 3000,
    "refused:bare string": 100, "refused:several lines": 150, "refused:pairwise": 150, "good_calls": 600,
}


def knows_width(native):
    """ is the number of columns fixed by the fitted model """
    name = type(native).__name__
    if name == "Pipeline":
        for _, step in native.steps:
            if knows_width(step):
                return True
            if not keeps_width(step):
                return False
        return False
    if name == "FeatureUnion":
        return any(knows_width(t) for _, t in native.transformer_list)
    if name == "StandardScaler":
        return native.mean_ is not None and native.with_mean or native.with_std
    if name == "TfidfTransformer":
        return native.use_idf
    return name in (
        "LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC",
        "GradientBoostingClassifier", "GaussianNB", "MultinomialNB", "ComplementNB", "SimpleImputer", "MissingIndicator",
        "OneHotEncoder", "OrdinalEncoder", "MinMaxScaler", "MaxAbsScaler",
    )


def keeps_width(native):
    return type(native).__name__ in ("Normalizer", "StandardScaler", "TfidfTransformer")


def consumes(native):
    """ does the model look at an array at all """
    name = type(native).__name__
    if name == "Pipeline":
        return consumes(native.steps[0][1])
    return name != "DummyClassifier"


def filler(ctx, s):
    """ a value for a surplus cell """
    if getattr(s, "object_rows", False):
        return s.rows[0][0]
    return ctx.rng.choice([0.0, 0, 1.5, s.rows[0][0], s.rows[-1][-1]])


def wrong_widths(ctx, s, rows):
    """ (name, rows) where every row has the same wrong width """
    w = s.width
    v = filler(ctx, s)
    yield "wider at the end", [r + [v] for r in rows]
    yield "wider at the front", [[v] + r for r in rows]
    yield "doubled", [r + r for r in rows]
    yield "single row, wider", [rows[0] + [v, v]]
    yield "no columns", [[] for _ in rows]
    if w > 1:
        yield "narrower at the end", [r[:-1] for r in rows]
        yield "narrower at the front", [r[1:] for r in rows]
        yield "one column", [r[:1] for r in rows]
        yield "single row, narrower", [rows[-1][:-1]]


def ragged(ctx, s, rows):
    for name, at in (("first", 0), ("middle", len(rows) // 2), ("last", -1)):
        for change in ("wider", "narrower", "without columns"):
            out = [list(r) for r in rows]
            if change == "wider":
                out[at] = out[at] + [filler(ctx, s)]
            elif change == "narrower" and s.width > 1:
                out[at] = out[at][:-1]
            else:
                out[at] = []
            yield "%s row %s" % (name, change), out


class ListLike(collections.UserList):
    pass


def containers(rows):
    yield "tuple", lambda: tuple(rows)
    yield "iterator", lambda: iter(rows)
    yield "generator", lambda: (r for r in rows)
    yield "dict", lambda: dict(enumerate(rows))
    yield "None", lambda: None
    yield "number", lambda: 1.5
    yield "string", lambda: "abc"
    yield "bytes", lambda: b"abc"
    yield "deque", lambda: collections.deque(rows)
    yield "UserList", lambda: ListLike(rows)
    try:
        array = np.array(rows, dtype=None if isinstance(rows[0], list) else object)
    except ValueError:
        return
    yield "array", lambda: array
    yield "object array", lambda: array.astype(object)


def refuse(ctx, s, pure, group, name, make_input, methods=None):
    for m in methods or s.methods:
        must_raise(ctx, "%s.%s: input with %s (%s)" % (s.family, m, name, group), lambda: getattr(pure, m)(make_input()))
        ctx.event("refused:" + group)
    ctx.state(s.family, repr(s.config), group, name)


def good(ctx, s, pure, sparse=False):
    for m in s.methods:
        call(ctx, "%s.%s of well-formed input" % (s.family, m), s.apply, pure, m, s.rows, sparse)
        ctx.event("good_calls")


def prepare(ctx, family):
    s = zoo.make(ctx, family, ctx.rng.choice([2, 3, 5]))
    if len(s.rows) < 2:
        s.rows = list(s.rows) * 2
    return s, s.convert(ctx)


def check_widths(ctx, s, pure):
    rows = [list(r) for r in s.rows]
    if not s.sparse_only:
        for name, X in wrong_widths(ctx, s, rows):
            refuse(ctx, s, pure, "width", name, lambda: [list(r) for r in X])
        for name, X in ragged(ctx, s, rows):
            refuse(ctx, s, pure, "ragged", name, lambda: [list(r) for r in X])
    if s.sparse_ok:
        d = sparse_rows(rows)
        w = s.width
        sizes = [("one more column declared", w + 1), ("twice the columns declared", 2 * w)]
        if w > 1:
            sizes += [("one column less declared", w - 1), ("one column declared", 1)]
        for name, size in sizes:
            inside = [{j: v for j, v in r.items() if j < size} for r in d]
            refuse(ctx, s, pure, "sparse width", name, lambda: new_sparse([dict(r) for r in inside], size))
            refuse(ctx, s, pure, "sparse width", name + ", no values", lambda: new_sparse([{} for _ in inside], size))


def check_containers(ctx, s, pure):
    rows = [list(r) for r in s.rows]
    refuse(ctx, s, pure, "empty", "no rows", lambda: [])
    if s.sparse_ok:
        def emptied():
            X = new_sparse(sparse_rows(rows), s.width)
            del X[:]
            return X

        refuse(ctx, s, pure, "empty", "no sparse rows", emptied)
    for name, make_input in containers(rows):
        refuse(ctx, s, pure, "container", name, make_input)


def _matrix(family):
    def case(ctx):
        s, pure = prepare(ctx, family)
        s.sparse_only = False
        if family == "tfidf":
            s.sparse_only, s.sparse_ok = True, True
        if not consumes(s.native):
            raise Skip("reads nothing of its input")
        good(ctx, s, pure, s.sparse_only)
        if knows_width(s.native):
            check_widths(ctx, s, pure)
        check_containers(ctx, s, pure)

    return case


def _pipe(ctx):
    s, pure = prepare(ctx, "pipe")
    s.sparse_only = False
    good(ctx, s, pure)
    if s.kind == "matrix":
        if knows_width(s.native):
            s.sparse_ok = False
            check_widths(ctx, s, pure)
        if consumes(s.native):
            check_containers(ctx, s, pure)
    elif s.kind == "docs":
        bare_strings(ctx, s, pure)
    else:
        raise Skip("mappings")


class Text(str):
    pass


def bare_strings(ctx, s, pure):
    rng = ctx.rng
    samples = ["", "a", "plain text", "two\nlines", Text("subclass of str")]
    samples += [r for r in s.rows if isinstance(r, str)][:2]
    for text in samples:
        refuse(ctx, s, pure, "bare string", "a bare string", lambda: text)
    ctx.state(s.family, repr(s.config))


def _text(family):
    def case(ctx):
        s, pure = prepare(ctx, family)
        good(ctx, s, pure)
        bare_strings(ctx, s, pure)

    return case


def _fasttext(ctx):
    rng = ctx.rng
    s = fam_ft.make_ft(ctx, rng.choice(["supervised", "supervised", "cbow", "skipgram"]))
    pure = s.convert(ctx)
    words = s.words
    texts = ["\n", "a\n", "\na", "a\nb", "%s\n%s" % (rng.choice(words), rng.choice(words)), "\r\n", " \n ", "\n\n", "x" * 50 + "\n"]
    texts += [r + "\n" for r in s.rows[:3]] + ["\n" + r for r in s.rows[:2]]
    one = rng.choice(words)
    calls = [("get_sentence_vector", lambda t: pure.get_sentence_vector(t))]
    call(ctx, "get_sentence_vector", pure.get_sentence_vector, one)
    if s.supervised:
        calls += [
            ("predict", lambda t: pure.predict(t)),
            ("predict with k and threshold", lambda t: pure.predict(t, k=rng.choice([1, 2, -1, 100]), threshold=rng.choice([0.0, 0.5, 1.1]))),
            ("predict of a list", lambda t: pure.predict([t])),
            ("predict of a list with one such text", lambda t: pure.predict([one, one, t], -1)),
            ("predict of a list starting with such text", lambda t: pure.predict([t, one])),
        ]
        call(ctx, "predict", pure.predict, one)
        call(ctx, "predict", pure.predict, [one, one])
        ctx.event("good_calls", 2)
    ctx.event("good_calls")
    for t in texts:
        for name, f in calls:
            must_raise(ctx, "fastText %s: text of several lines %r" % (name, t), f, t)
            ctx.event("refused:several lines")
            ctx.state(s.family, s.config, name, t)


def _pairwise(ctx):
    from pure_sklearn.metrics.pairwise import cosine_distances_pure, cosine_similarity_pure, linear_kernel_pure

    rng = ctx.rng
    w = rng.choice([1, 2, 3, 7])
    X = data.matrix(ctx, rng.choice([1, 2, 4]), w, "gauss").tolist()
    Y = data.matrix(ctx, rng.choice([1, 2, 4]), w, "gauss").tolist()
    S = lambda rows, size=None: new_sparse(sparse_rows(rows), size or len(rows[0]))
    wider = [r + [0.0] for r in Y]
    bad = [
        ("Y is wider", lambda: (X, wider)),
        ("X is wider", lambda: ([r + [1.0] for r in X], Y)),
        ("a row of Y is wider", lambda: (X, Y + [Y[0] + [1.0]])),
        ("a row of X is wider", lambda: (X + [X[0] + [1.0]], Y)),
        ("a row of X is wider, no Y", lambda: (X + [X[0] + [1.0]],)),
        ("a row of X is empty", lambda: (X + [[]], Y)),
        ("X is sparse and wider", lambda: (S(X, w + 1), Y)),
        ("X is sparse and Y wider", lambda: (S(X), wider)),
        ("Y is sparse", lambda: (X, S(Y))),
        ("both are sparse", lambda: (S(X), S(Y))),
        ("X is a vector", lambda: (X[0], Y)),
        ("Y is a vector", lambda: (X, Y[0])),
        ("X is a vector, no Y", lambda: (X[0],)),
        ("X has no rows", lambda: ([], Y)),
        ("Y has no rows", lambda: (X, [])),
        ("X has no rows, no Y", lambda: ([],)),
    ]
    if w > 1:
        bad += [
            ("Y is narrower", lambda: (X, [r[:-1] for r in Y])),
            ("X is narrower", lambda: ([r[:-1] for r in X], Y)),
            ("a row of Y is narrower", lambda: (X, Y + [Y[0][:-1]])),
            ("a row of X is narrower", lambda: (X + [X[0][:-1]], Y)),
            ("X is sparse and narrower", lambda: (S([r[:-1] for r in X]), Y)),
            ("X is sparse and Y narrower", lambda: (S(X), [r[:-1] for r in Y])),
        ]
    for f in (cosine_similarity_pure, cosine_distances_pure, linear_kernel_pure):
        call(ctx, f.__name__, f, X, Y)
        call(ctx, f.__name__, f, S(X), Y)
        ctx.event("good_calls", 2)
        for name, args in bad:
            must_raise(ctx, "%s: %s" % (f.__name__, name), lambda: f(*args()))
            ctx.event("refused:pairwise")
            ctx.state(f.__name__, name, w, len(X), len(Y))


CASES = {f: (_matrix(f), 40, 1500) for f in ("linear", "gb", "nb", "imputer", "encoder", "scaler", "tfidf")}
CASES.update({f: (_matrix(f), 15, 400) for f in ("tree", "ensemble", "xgb")})
CASES.update({f: (_text(f), 20, 500) for f in ("text", "hashing")})
CASES["pipe"] = (_pipe, 60, 2000)
CASES["fasttext"] = (_fasttext, 15, 400)
CASES["pairwise"] = (_pairwise, 20, 500)
CASES.update(big_cases({k: c for k, c in CASES.items() if k not in ("pairwise",)}, QUICK_SCALE, 2, 30))
