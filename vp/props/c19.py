""" C19: call histories change neither the model nor the caller's data """

import copy
import pickle

import numpy as np

from .. import zoo
from ..core import Skip, big_cases, call
from ..subject import Subject, equal

RULE = (
    "A case plays a random history of prediction and transform calls on one or two converted models of a family (methods, "
    "batches, dense and sparse forms and aliased rows mixed; returned results are overwritten in place between calls) and "
    "compares every answer with the answer of a freshly unpickled copy in a fresh process, and every input with a copy taken "
    "before; at the end the whole model is compared with its state before. Distinct: answers observed at different places of "
    "a history."
)
QUICK_SCALE = 2
REQUIRED = {"models_which_change_nothing": 50, "history_calls": 2500, "results_overwritten": 1000, "inputs_compared": 2500, "fresh_process_answers": 500}


def identity(ctx, family, n_rows):
    """ models which change nothing, where returning what came in would look right """
    from sklearn.feature_extraction.text import TfidfTransformer
    from sklearn.impute import SimpleImputer
    from sklearn.pipeline import FeatureUnion, Pipeline
    from sklearn.preprocessing import MaxAbsScaler, MinMaxScaler, Normalizer, StandardScaler

    rng = ctx.rng
    d = rng.choice([1, 2, 7, 40, 40, 300])
    X = ctx.np.choice([0.0, 1.0, 1.0, -1.0, 3.0, 0.5], (6, d))
    X[0], X[1] = 1.0, -1.0
    same = lambda: StandardScaler(with_mean=False, with_std=False)
    plain = lambda: TfidfTransformer(norm=None, use_idf=False)
    name, est, sparse, dense = rng.choice([
        ("scaler", same(), True, True), ("tfidf", plain(), True, False), ("imputer", SimpleImputer(), False, True),
        ("pipe", Pipeline([("a", same()), ("b", same())]), True, True), ("pipe", FeatureUnion([("a", same())]), True, True),
        ("pipe", Pipeline([("a", plain()), ("b", same())]), True, False), ("pipe", FeatureUnion([("a", plain()), ("b", same())]), True, False),
        ("scaler", MaxAbsScaler(), True, True), ("scaler", MinMaxScaler((-1, 1)), False, True),
        ("scaler", Normalizer(rng.choice(["l1", "l2", "max"])), True, True), ("tfidf", TfidfTransformer(use_idf=False, norm=rng.choice(["l1", "l2"])), True, False),
    ])
    if name == "scaler" and not isinstance(est, StandardScaler):
        X = np.clip(X, -1, 1)
    if getattr(est, "norm", None):
        # rows which have unit norm already
        X = np.eye(d)[ctx.np.randint(0, d, len(X))]
    est.fit(X)
    rows = [[float(v) for v in r] for r in X[2:]]
    s = Subject(ctx, type(est).__name__, est, rows, ["transform"], {"kind": "identity", "width": d}, sparse_ok=sparse)
    if not dense:
        s.only_sparse = True
    s.zoo = name
    ctx.event("models_which_change_nothing")
    return s


def _run(family, make=zoo.make):
    def case(ctx):
        rng = ctx.rng
        subjects = [make(ctx, family, rng.choice([1, 3, 8]))]
        if rng.random() < 0.35:
            # a second model, so that state shared between models shows
            try:
                subjects.append(make(ctx, family, rng.choice([1, 3])))
            except Skip:
                pass
        models = []
        for s in subjects:
            pure = s.convert(ctx)
            blob = zoo.dumps(ctx, s, pure)
            rows = zoo.usable_rows(ctx, s, 6)
            if rng.random() < 0.3:
                # the model under observation is sometimes a reloaded one
                pure = pickle.loads(blob)
            calls = []
            for method in zoo.methods(s):
                for sparse in zoo.modes(s):
                    if getattr(s, "only_sparse", False) and not sparse:
                        continue
                    for _ in range(2):
                        pick = [rng.choice(rows) for _ in range(rng.choice([1, 1, 2, len(rows)]))]
                        # sparse rows may hold zeros explicitly
                        explicit = None
                        if sparse and rng.random() < 0.4:
                            explicit = {a: rng.sample(range(len(pick[0])), min(3, len(pick[0]))) for a in range(len(pick))}
                        calls.append((method, pick, sparse, explicit))
            rng.shuffle(calls)
            calls = calls[:6]
            models.append((s, pure, blob, calls, zoo.fresh_answers(ctx, s, blob, calls)))
        for step in range(rng.choice([6, 12, 12, 90])):
            s, pure, blob, calls, expected = models[rng.randrange(len(models))]
            i = rng.randrange(len(calls))
            method, rows, sparse, explicit = calls[i]
            arg = s.pure_input(rows, sparse, explicit)
            if s.kind == "matrix" and not sparse and rng.random() < 0.2:
                # the same row object in several places
                seen = {}
                arg = [seen.setdefault(repr(r), r) for r in arg]
                ctx.event("aliased_batches")
            before = copy.deepcopy(arg)
            if s.kind == "lines":
                status, out = zoo.answer(s, pure, method, arg)
            else:
                try:
                    status, out = "ok", getattr(pure, method)(arg)
                except Exception as e:
                    status, out = "raised", type(e).__name__
            what = "%s.%s%s, call %d of a history" % (s.family, method, " (sparse)" if sparse else "", step + 1)
            ctx.event("history_calls")
            ctx.event("calls")
            ctx.event("inputs_compared")
            ctx.require(equal(arg, before), what + ": the caller's input was changed", before=before, after=arg, config=s.config)
            es, eo = expected[i]
            ctx.require(status == es, what + ": %s, on a fresh copy %s" % (status, es), out=out, expected=eo, config=s.config)
            ctx.require(equal(out, eo), what + ": not the answer of a fresh copy", got=out, expected=eo, config=s.config)
            ctx.state(family, step, method, repr(eo)[:300])
            if status == "ok" and isinstance(out, list):
                parts = [id(v) for v in out if isinstance(v, (list, dict))]
                ctx.require(
                    len(parts) == len(set(parts)), what + ": several rows of the result are one object", out=out, config=s.config
                )
            if status == "ok" and rng.random() < 0.6:
                zoo.scribble(out)
                ctx.event("results_overwritten")
                ctx.require(
                    equal(arg, before), what + ": overwriting the result changed the caller's input", before=before, after=arg,
                    config=s.config,
                )
        for s, pure, blob, calls, expected in models:
            # once more everything, after the last result was overwritten
            for c, e in zip(calls, expected):
                ctx.event("history_calls")
                got = zoo.answer(s, pure, *c)
                ctx.require(
                    equal(list(got), list(e)), "%s.%s at the end of a history: not the answer of a fresh copy" % (s.family, c[0]),
                    got=got, expected=e, config=s.config,
                )

    return case


QUICK = {"ft_supervised": 14, "ft_unsupervised": 14, "xgb": 16, "gb": 20, "pipe": 50}
CASES = {f: (_run(f), QUICK.get(f, 30), QUICK.get(f, 30) * 20) for f in zoo.ZOO}
CASES["identity"] = (_run("scaler", identity), 60, 2000)


def function_calls(ctx):
    """ calls of the module functions: (name, function, arguments, keywords) """
    from pure_sklearn import utils
    from pure_sklearn.metrics import pairwise
    from pure_sklearn.preprocessing import normalize_pure

    from .. import fam_prep
    from ..subject import new_sparse, sparse_rows
    from .c27 import draw

    rng = ctx.rng
    n, d = rng.choice([1, 2, 5]), rng.choice([1, 2, 6])
    X, Y = draw(ctx, n, d), draw(ctx, rng.choice([1, 3]), d)
    S = new_sparse(sparse_rows(X), d)
    ops = []
    for norm in ("l1", "l2", "max"):
        for axis in (0, 1):
            ops.append(("normalize_pure %s %d" % (norm, axis), normalize_pure, (X,), {"norm": norm, "axis": axis}))
        ops.append(("normalize_pure sparse " + norm, normalize_pure, (S,), {"norm": norm}))
    for name in ("cosine_similarity", "cosine_distances", "linear_kernel"):
        f = getattr(pairwise, name + "_pure")
        ops += [(name, f, (X,), {}), (name, f, (X, X), {}), (name, f, (X, Y), {}), (name, f, (S, Y), {})]
    ops += [("tosparse", utils.tosparse, (X,), {}), ("todense", utils.todense, (S,), {}), ("shape", utils.shape, (S,), {})]
    return ops


def _functions(ctx):
    """ the module functions leave their arguments alone, too """
    rng = ctx.rng
    ops = function_calls(ctx)
    expected = {}
    for i, (what, f, args, kw) in enumerate(ops):
        status, out = zoo.in_process(lambda: f(*args, **kw))()
        expected[i] = (status, out)
        ctx.event("fresh_process_answers")
    for _ in range(25):
        i = rng.randrange(len(ops))
        what, f, args, kw = ops[i]
        args, before = copy.deepcopy(args), copy.deepcopy(args)
        try:
            got = ("ok", f(*args, **kw))
        except Exception as e:
            got = ("raised", "%s: %s" % (type(e).__name__, e))
        ctx.event("history_calls")
        ctx.event("inputs_compared")
        ctx.require(equal(list(args), list(before)), what + ": its input was changed", before=before, after=args)
        ctx.require(equal(list(got), list(expected[i])), what + ": answer depends on earlier calls", got=got, expected=expected[i])
        if got[0] == "ok":
            zoo.scribble(got[1])
            ctx.event("results_overwritten")
            ctx.require(equal(list(args), list(before)), what + ": overwriting its result changed its input", before=before)
        ctx.state(what, repr(expected[i])[:300])


CASES["functions"] = (_functions, 30, 1500)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
