""" C35: the comparison of a model with its native original reports what it measured """

import contextlib
import copy
import io
import pickle
import re
import time

import numpy as np

from .. import zoo
from ..core import Skip, call, must_raise
from ..subject import equal

RULE = (
    "A case runs performance_comparison() and reads what it prints. 'models' compares native models of every family with their "
    "conversions: the sizes have to be those of the pickles, every ratio that of the two numbers above it, and model, native "
    "model and rows stay as they were. 'stand_ins' compares recording objects which sleep while being unpickled or predicting: "
    "every printed time has to contain the time which its own object took, and nothing of the other's; each is unpickled, and "
    "asked once for the first record only. 'failing' ones have an error in a step, which has to reach the caller. Distinct: "
    "(model, sizes)."
)
QUICK_SCALE = 3
REQUIRED = {"comparisons": 150, "stand_ins_measured": 30, "errors_passed_on": 10}
TITLES = ["Pickle Size sklearn", "Pickle Size pure-predict", "Difference", "Unpickle time sklearn", "Unpickle time pure-predict",
          "Difference", "Predict 1 record sklearn", "Predict 1 record pure-predict", "Difference"]


def printed(ctx, what, *args):
    """ the nine numbers, in order """
    from pure_sklearn.utils import performance_comparison

    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = call(ctx, what, performance_comparison, *args)
    ctx.require(got is None, what + ": returned something", got=got)
    lines = out.getvalue().splitlines()
    numbers = []
    ctx.require(len(lines) == len(TITLES), what + ": %d lines instead of %d" % (len(lines), len(TITLES)), lines=lines)
    for line, title in zip(lines, TITLES):
        m = re.match(r"^%s: ([-+.eE0-9]+)$" % re.escape(title), line)
        ctx.require(m, what + ": a line which does not say %r" % title, lines=lines)
        numbers.append(float(m.group(1)))
    for a, b, c in (numbers[:3], numbers[3:6], numbers[6:]):
        ctx.require(a > 0 and b > 0 and abs(c - b / a) <= 1e-6 * c, what + ": the ratio of %r and %r is not %r" % (b, a, c), lines=lines)
    ctx.event("comparisons")
    return numbers


def _models(family):
    def case(ctx):
        s = zoo.make(ctx, family, ctx.rng.choice([1, 3]))
        if "predict" not in s.methods or s.kind == "lines":
            raise Skip("does not predict")
        pure = s.convert(ctx)
        rows = zoo.usable_rows(ctx, s, 5)
        if not rows:
            raise Skip("no rows")
        X = s.native_input(rows)
        if not isinstance(X, (np.ndarray, list)):
            raise Skip("neither an array nor a list")
        what = "comparing a %s" % type(s.native).__name__
        kept, before = copy.deepcopy(X), pickle.dumps(pure, 4)
        sizes = len(pickle.dumps(s.native)), len(pickle.dumps(pure))
        numbers = printed(ctx, what, s.native, pure, X)
        ctx.require(numbers[0] == sizes[0], what + ": size of the native pickle is %d, printed %r" % (sizes[0], numbers[0]))
        ctx.require(numbers[1] == sizes[1], what + ": size of the converted pickle is %d, printed %r" % (sizes[1], numbers[1]))
        same = np.array_equal(X, kept) or repr(X) == repr(kept)
        ctx.require(type(X) is type(kept) and same, what + ": the rows were changed", before=kept, after=X)
        P = s.pure_input(rows)
        answers = [call(ctx, what + ": predict", lambda: m.predict(copy.deepcopy(P))) for m in (pure, pickle.loads(before))]
        ctx.require(equal(*answers), what + ": the converted model answers differently afterwards", got=answers[0], before=answers[1])
        ctx.state(family, sizes)

    return case


LOG = []


class StandIn:
    """ a model which records what happens to it, and how long that took """

    def __init__(self, name, load, predict, padding, fail=None):
        self.__dict__.update(name=name, load=load, wait=predict, padding="x" * padding, fail=fail)

    def __reduce__(self):
        if self.fail == "pickle":
            raise RuntimeError("pickle")
        return _loaded, (self.name, self.load, self.wait, len(self.padding), self.fail), {"padding": self.padding}

    def __setstate__(self, state):
        self.__dict__.update(state)

    def predict(self, X):
        start = time.time()
        if self.fail == "predict":
            raise RuntimeError("predict")
        time.sleep(self.wait)
        LOG.append((self.name, "predict", time.time() - start, copy.deepcopy(X)))
        return [0] * len(X)


def _loaded(name, load, predict, padding, fail):
    start = time.time()
    if fail == "unpickle":
        raise RuntimeError("unpickle")
    time.sleep(load)
    LOG.append((name, "load", time.time() - start, None))
    return StandIn(name, load, predict, 0, fail)


def drawn(ctx):
    rng = ctx.rng
    n, d = rng.choice([1, 2, 7]), rng.choice([1, 3])
    X = ctx.np.randn(n, d)
    return rng.choice([X, X.tolist(), X.astype("float32"), (X * 9).astype(int), np.array([["a"] * d] * n, dtype=object), ["some text"] * n,
                       [{"a": 1.0}] * n])


def _stand_ins(ctx):
    rng = ctx.rng
    waits = [rng.choice([0.0, 0.002, 0.03]) for _ in range(4)]
    X = drawn(ctx)
    a = StandIn("native", waits[0], waits[1], rng.randrange(5000))
    b = StandIn("pure", waits[2], waits[3], rng.randrange(5000))
    sizes = len(pickle.dumps(a)), len(pickle.dumps(b))
    del LOG[:]
    start = time.time()
    numbers = printed(ctx, "comparing stand-ins", a, b, X)
    total = time.time() - start
    log = list(LOG)
    ctx.require(tuple(numbers[:2]) == sizes, "printed sizes %r instead of %r" % (numbers[:2], sizes))
    spent = {}
    for name, what, t, arg in log:
        spent.setdefault((name, what), []).append(t)
        if what == "predict":
            first = X[:1] if isinstance(X, list) or name == "native" else X[:1].tolist()
            ctx.require(type(arg) is type(first) and len(arg) == 1 and repr(arg) == repr(first), "the %s model was asked for %r" % (name, arg), X=X)
    everything = sum(t for _, _, t, _ in log)
    for i, key in ((3, ("native", "load")), (4, ("pure", "load")), (6, ("native", "predict")), (7, ("pure", "predict"))):
        got = spent.get(key, [])
        ctx.require(len(got) == 1, "%s of the %s model %d times" % (key[1], key[0], len(got)), log=log)
        # at least what it took itself, and at most everything but what the other steps took
        ctx.require(numbers[i] >= got[0] - 1e-4, "%r took %.6f s, printed %.6f" % (key, got[0], numbers[i]))
        ctx.require(numbers[i] <= total - (everything - got[0]) + 1e-4, "%r: printed %.6f s include other steps" % (key, numbers[i]), log=log)
    ctx.event("stand_ins_measured")
    ctx.state("stand-ins", sizes, tuple(waits))


def _failing(ctx):
    from pure_sklearn.utils import performance_comparison

    rng = ctx.rng
    step, who = rng.choice(["pickle", "unpickle", "predict"]), rng.choice([0, 1])
    models = [StandIn("native", 0, 0, 9, step if who == 0 else None), StandIn("pure", 0, 0, 9, step if who == 1 else None)]
    with contextlib.redirect_stdout(io.StringIO()):
        e = must_raise(ctx, "comparing with a failing %s" % step, performance_comparison, models[0], models[1], drawn(ctx))
    ctx.require(isinstance(e, RuntimeError) and e.args == (step,), "the error of %s became %r" % (step, e))
    ctx.event("errors_passed_on")
    ctx.state("failing", step, who)


CASES = {f: (_models(f), 14, 400) for f in zoo.ZOO if not f.startswith("ft_") and f not in ("scaler", "encoder", "imputer", "text", "tfidf", "hashing", "dict")}
CASES["pipe"] = (_models("pipe"), 60, 1200)
CASES["stand_ins"] = (_stand_ins, 60, 1500)
CASES["failing"] = (_failing, 24, 200)
