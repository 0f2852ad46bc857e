""" C28: conversion is isolated from the native model and reproducible """

import copy
import gc
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
import scipy.sparse as sp

from .. import fam_ft, zoo
from ..core import VERIF, Ctx, Skip, big_cases, call
from ..subject import convert, equal, native_list, pure_list

RULE = (
    "A case fits one native model and records its answers and the content of its attributes, converts it twice, and compares: "
    "the native answers and attributes after conversion and use of the converted model with those before; the answers of both "
    "conversions; the answers of a converted model before and after the native model is changed (every array, list, mapping and "
    "scalar it holds overwritten, other training data, partial_fit, pruning, deletion), also of one which had not answered "
    "before; the native answers after the content of the converted model is overwritten; and answers after converting other "
    "models. Process cases convert the same native models in new interpreters with other hash seeds. Answers are compared bit "
    "for bit. Distinct: models with their answers."
)
QUICK_SCALE = 2
REQUIRED = {
    "native_attributes_compared": 1500, "native_values_overwritten": 2500, "refits": 60, "answers_compared": 3000,
    "other_conversions": 100, "process_answers": 200,
}


# ------------------------------------------------------------- native content


def content(obj, depth=0):
    """ plain comparable content of native attributes (None where it is unknown) """
    if depth > 6:
        return None
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            return ("array", obj.shape, [content(v, depth + 1) for v in obj.ravel()])
        return ("array", obj.shape, str(obj.dtype), obj.tobytes())
    if sp.issparse(obj):
        return ("sparse", obj.shape, content(obj.tocoo().data), content(obj.tocoo().row), content(obj.tocoo().col))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [content(v, depth + 1) for v in obj])
    if isinstance(obj, dict):
        return ("dict", [(repr(k), content(v, depth + 1)) for k, v in obj.items()])
    if isinstance(obj, (set, frozenset)):
        return ("set", sorted(repr(v) for v in obj))
    if obj is None or isinstance(obj, (bool, int, float, str, bytes, np.generic)):
        return (type(obj).__name__, repr(obj))
    if hasattr(obj, "get_params") and hasattr(obj, "__dict__"):
        return (type(obj).__name__, {k: content(v, depth + 1) for k, v in vars(obj).items()})
    if type(obj).__name__ == "Tree":
        return ("Tree", content(obj.__getstate__(), depth + 1))
    return None


def differences(before, after, path=""):
    """ paths at which something that was known has another content """
    if before is None:
        return
    if isinstance(before, tuple) and isinstance(after, tuple) and before and before[0] == (after[0] if after else None) and \
            len(before) == len(after) == 2 and isinstance(before[1], dict):
        for k, v in before[1].items():
            if k not in after[1]:
                yield path + "." + k + " is gone"
            else:
                yield from differences(v, after[1][k], path + "." + k)
    elif before != after:
        yield path


def count(c):
    return sum(count(v) for v in c[1].values()) if isinstance(c, tuple) and len(c) == 2 and isinstance(c[1], dict) else 1


# -------------------------------------------------------------- changing it


def words_of(rows):
    """ words of the documents among the rows """
    words = set()
    for row in rows:
        if isinstance(row, bytes):
            row = row.decode("utf-8", "ignore")
        if isinstance(row, str):
            words.update(row.split()[:50])
            words.update(row.lower().split()[:50])
    return sorted(words)[:100]


def overwrite(ctx, obj, depth=0, seen=None):
    """ overwrite everything a native model holds """
    seen = set() if seen is None else seen
    if depth > 8 or id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        if obj.dtype == object:
            for v in obj.ravel():
                overwrite(ctx, v, depth + 1, seen)
        try:
            obj.flags.writeable = True
        except ValueError:
            pass
        if obj.flags.writeable and obj.size:
            if obj.dtype.kind in "fiu":
                obj[...] = obj[...] // 2 + 3
            elif obj.dtype.kind == "b":
                obj[...] = ~obj
            elif obj.dtype.kind in "US":
                obj[...] = "q"
            elif obj.dtype == object:
                obj[...] = 5
            ctx.event("native_values_overwritten")
    elif sp.issparse(obj):
        for name in ("data", "indices", "indptr"):
            if hasattr(obj, name):
                overwrite(ctx, getattr(obj, name), depth + 1, seen)
    elif isinstance(obj, list):
        for v in obj:
            overwrite(ctx, v, depth + 1, seen)
        obj.reverse()
        obj.append("surplus")
        if all(isinstance(v, str) for v in obj):
            obj.extend(ctx.words)  # a list of stop words now holds other words of the documents
        ctx.event("native_values_overwritten")
    elif isinstance(obj, tuple):
        for v in obj:
            overwrite(ctx, v, depth + 1, seen)
    elif isinstance(obj, dict):
        for v in list(obj.values()):
            overwrite(ctx, v, depth + 1, seen)
        keys, values = list(obj), list(obj.values())
        for k, v in zip(keys, reversed(values)):
            obj[k] = v
        if keys:
            del obj[keys[0]]
        ctx.event("native_values_overwritten")
    elif isinstance(obj, set):
        obj.clear()
        obj.add("surplus")
        obj.update(ctx.words)
        ctx.event("native_values_overwritten")
    elif type(obj).__name__ == "Tree":
        for name in ("threshold", "feature", "children_left", "children_right", "value", "weighted_n_node_samples"):
            overwrite(ctx, getattr(obj, name), depth + 1, seen)
    elif type(obj).__module__.split(".")[0] in ("sklearn", "xgboost") and hasattr(obj, "__dict__"):
        for k, v in list(vars(obj).items()):
            overwrite(ctx, v, depth + 1, seen)
            new = None
            if isinstance(v, bool):
                new = not v
            elif isinstance(v, (int, float, np.number)):
                new = v + 1
            elif isinstance(v, str):
                new = v + "x"
            if new is not None:
                try:
                    setattr(obj, k, new)
                    ctx.event("native_values_overwritten")
                except Exception:
                    pass


def refit(ctx, s):
    """ train the native model again on something else """
    native, rng = s.native, ctx.rng
    try:
        if s.kind == "lines":
            native.quantize(qnorm=False, retrain=False)
        elif s.kind == "matrix":
            X = s.native_input([list(reversed(r)) for r in s.rows] * 8)
            labels = native.classes_.tolist() if hasattr(native, "classes_") else [0, 1]
            y = np.array([labels[i % len(labels)] for i in range(len(X))])
            if hasattr(native, "partial_fit") and rng.random() < 0.5:
                native.partial_fit(X, y)
            else:
                native.fit(X, y)
        elif s.kind == "dicts":
            native.fit([{"other": 1.0, "thing": "x"}, {"age": 3}])
        else:
            docs = ["other words altogether", "nothing in common", "plain text"] * 4
            native.fit(docs, [i % 2 for i in range(len(docs))])
        ctx.event("refits")
    except Exception:
        ctx.event("refits_refused_natively")


def scribble_model(obj, depth=0, seen=None):
    """ overwrite everything a converted model holds """
    seen = set() if seen is None else seen
    if depth > 60 or id(obj) in seen:
        return
    seen.add(id(obj))
    if isinstance(obj, dict):
        for v in list(obj.values()):
            scribble_model(v, depth + 1, seen)
        obj.clear()
    elif isinstance(obj, list):
        for v in obj:
            scribble_model(v, depth + 1, seen)
        obj[:] = ["surplus"]
    elif isinstance(obj, tuple):
        for v in obj:
            scribble_model(v, depth + 1, seen)
    elif isinstance(obj, np.ndarray):
        if obj.flags.writeable:
            obj[...] = 0
    elif hasattr(obj, "__dict__") and type(obj).__module__.split(".")[0] in ("pure_sklearn", "pure_fasttext"):
        for v in list(vars(obj).values()):
            scribble_model(v, depth + 1, seen)


# -------------------------------------------------------------------- answers


def native_answers(s):
    out = []
    if s.kind == "lines":
        for row in s.rows:
            out.append(s.native_vector(row))
            if s.supervised:
                out.append(s.native_predict(row, -1, 0.0))
        return out
    for m in s.methods:
        try:
            res = getattr(s.native, m)(s.native_input(s.rows))
            # (the dense form of a hashed row can be huge)
            out.append((m, content(res) if sp.issparse(res) else native_list(res)))
        except Exception as e:
            out.append((m, type(e).__name__))
    return out


def answers(ctx, s, pure, calls):
    ctx.event("answers_compared", len(calls))
    return [zoo.answer(s, pure, *c) for c in calls]


def plan(ctx, s):
    rows = zoo.usable_rows(ctx, s, 6)
    return [(m, rows, sparse) for m in zoo.methods(s) for sparse in zoo.modes(s)]


def same(ctx, s, what, got, expected, calls):
    for c, a, b in zip(calls, got, expected):
        ctx.require(
            equal(a, b), "%s: %s of %s answers differently" % (s.family, c[0], what), got=a, expected=b, config=s.config,
        )


def _isolation(family):
    def case(ctx):
        rng = ctx.rng
        s = zoo.make(ctx, family, rng.choice([1, 3, 6]))
        calls = plan(ctx, s)
        first_native = native_answers(s)
        before = content(s.native)
        pure = s.convert(ctx)
        again = s.convert(ctx)
        lazy = s.convert(ctx)  # has never answered when the native model changes
        wrecked = s.convert(ctx)
        expected = answers(ctx, s, pure, calls)
        same(ctx, s, "a second conversion", answers(ctx, s, again, calls), expected, calls)
        if s.kind != "lines":
            for path in differences(before, content(s.native), type(s.native).__name__):
                ctx.fail("%s: conversion changed the native model: %s" % (s.family, path), config=s.config)
            ctx.event("native_attributes_compared", count(before))
        ctx.require(
            equal(native_answers(s), first_native), s.family + ": the native model answers differently after conversion",
            config=s.config,
        )
        # another model of the same kind in between
        other = zoo.make(ctx, family, 2)
        try:
            other_pure = other.convert(ctx)
            answers(ctx, other, other_pure, plan(ctx, other))
            ctx.event("other_conversions")
        except Skip:
            pass
        ctx.sample = {"family": s.family, "config": s.config, "rows": len(s.rows)}
        same(ctx, s, "the model after converting another one", answers(ctx, s, pure, calls), expected, calls)
        # the native model does not depend on the converted one
        scribble_model(wrecked)
        ctx.require(
            equal(native_answers(s), first_native), s.family + ": the native model answers differently after the converted one changed",
            config=s.config,
        )
        same(ctx, s, "a model after another conversion changed", answers(ctx, s, again, calls), expected, calls)
        # the converted model does not depend on the native one
        if rng.random() < 0.5:
            refit(ctx, s)
        if s.kind != "lines":
            ctx.words = words_of(s.rows)
            overwrite(ctx, s.native)
        same(ctx, s, "the model after the native one changed", answers(ctx, s, pure, calls), expected, calls)
        same(ctx, s, "a new model after the native one changed", answers(ctx, s, lazy, calls), expected, calls)
        s.native = None
        gc.collect()
        junk = [np.full(n, 7.0) for n in (4, 16, 64, 256, 1024) for _ in range(50)]
        same(ctx, s, "the model after the native one is gone", answers(ctx, s, pure, calls), expected, calls)
        del junk
        ctx.state(s.family, repr(s.config), repr(expected)[:300])

    return case


def run_child(jobs, hashseed, flags=()):
    fd, path = tempfile.mkstemp(prefix="vp-child-")
    try:
        with os.fdopen(fd, "wb") as fh:
            pickle.dump(jobs, fh)
        env = dict(os.environ, PYTHONHASHSEED=hashseed)
        p = subprocess.run(
            [sys.executable] + list(flags) + [os.path.join(VERIF, "vp", "child.py"), VERIF, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            env=env, cwd="/", timeout=300,
        )
    finally:
        os.unlink(path)
    if p.returncode != 0:
        raise RuntimeError("new interpreter: %s" % p.stderr.decode("utf-8", "replace")[-500:])
    return pickle.loads(p.stdout)


def _processes(ctx):
    rng = ctx.rng
    jobs, local = [], []
    for family in rng.sample([f for f in zoo.ZOO if not f.startswith("ft")], 9):
        try:
            s = zoo.make(ctx, family, 3)
            blob = pickle.dumps(s.native)
        except (Skip, pickle.PicklingError, AttributeError):
            continue
        pure = s.convert(ctx)
        calls = plan(ctx, s)
        expected = answers(ctx, s, pure, calls)
        inputs = [(m, s.pure_input(rows, sparse)) for m, rows, sparse in calls]
        jobs.append(("pickled", blob, inputs))
        local.append((s, calls, expected, None))
    where = (ctx.prop, "ft", ctx.index, ctx.seed, ctx.tier)
    try:
        s = fam_ft.make_ft(Ctx(*where))
        pure = s.convert(ctx)
        calls = plan(ctx, s)
        jobs.append(("fasttext", where, [(m, rows) for m, rows, _ in calls]))
        local.append((s, calls, answers(ctx, s, pure, calls), s.native.get_input_matrix().tobytes()))
    except Skip:
        pass
    ctx.sample = {"families": [s.family for s, _, _, _ in local]}
    for hashseed in ("1", str(rng.randrange(2, 10 ** 6))):
        seed, h, results = run_child(jobs, hashseed)
        if h == hash("hash of this process"):
            raise RuntimeError("the new interpreter has the hash seed of this one")
        for (s, calls, expected, native), (status, extra, got) in zip(local, results):
            ctx.require(status == "ok", "%s: converting in a new process failed: %s" % (s.family, extra), config=s.config)
            if native is not None and native != extra:
                ctx.event("native_training_differs")
                continue
            same(ctx, s, "a conversion in a new process (hash seed %s)" % hashseed, got, expected, calls)
            ctx.event("process_answers", len(calls))
            ctx.state(s.family, repr(s.config), hashseed)


CASES = {f: (_isolation(f), 12, 300) for f in zoo.ZOO}
CASES["processes"] = (_processes, 12, 120)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
