""" C17: plain Python data only """

import io
import pickle
import pickletools
import sys

import numpy as np

from .. import zoo
from ..core import Skip, attempt, big_cases, call
from ..subject import convert, is_sparse

RULE = (
    "A case converts one native model, plain or with its fitted attributes and parameters replaced by equal values of NumPy "
    "types (scalars, strings, object arrays of scalars), and, unless that is refused, walks every object reachable from the "
    "converted model (attributes, containers, closures, pickle globals) and from every answer, checking exact types. Distinct: "
    "models with the multiset of types found."
)
QUICK_SCALE = 5.2
REQUIRED = {"objects_walked": 30000, "answers_walked": 800, "models_with_numpy_parameters": 100, "numpy_models_converted": 40}
PLAIN = (int, float, str, bool, type(None), complex, bytes)


def own_module(name):
    return (name or "").split(".")[0] in ("pure_sklearn", "pure_fasttext")


def std_module(name):
    top = (name or "").split(".")[0]
    return top == "builtins" or (top in sys.stdlib_module_names)


def walk(ctx, root, where, data_only=False):
    """ every reachable object; raises a violation for a foreign one """
    seen, todo, n = {}, [(root, where)], 0
    kinds = {}
    while todo:
        obj, path = todo.pop()
        if id(obj) in seen:
            continue
        seen[id(obj)] = obj
        n += 1
        t = type(obj)
        kinds[t.__name__] = kinds.get(t.__name__, 0) + 1
        if t in PLAIN:
            continue
        if t in (list, tuple, set, frozenset):
            for i, v in enumerate(obj):
                todo.append((v, "%s[%d]" % (path, i) if n < 50000 else path))
            continue
        if t is dict:
            for k, v in obj.items():
                todo.append((k, path + " key"))
                todo.append((v, "%s[%r]" % (path, k) if n < 50000 else path))
            continue
        if isinstance(obj, type):
            if not (own_module(obj.__module__) or std_module(obj.__module__)):
                ctx.fail("%s is the foreign type %r" % (path, obj))
            continue
        if not (own_module(t.__module__) or (std_module(t.__module__) and not data_only)):
            ctx.fail("%s is a %s.%s" % (path, t.__module__, t.__name__), value=obj)
        if callable(obj) and hasattr(obj, "__code__") or t.__name__ in ("method", "builtin_function_or_method", "partial"):
            module = getattr(obj, "__module__", None)
            if module is not None and not (own_module(module) or std_module(module)):
                ctx.fail("%s is a function of %s" % (path, module))
            for c in getattr(obj, "__closure__", None) or ():
                todo.append((c.cell_contents, path + " closure"))
            for v in (getattr(obj, "__defaults__", None) or ()):
                todo.append((v, path + " default"))
            if getattr(obj, "__self__", None) is not None and not isinstance(obj.__self__, type(sys)):
                todo.append((obj.__self__, path + ".__self__"))
            for v in (getattr(obj, "args", None) or ()):
                todo.append((v, path + " argument"))
            continue
        if isinstance(obj, dict):
            for k, v in dict.items(obj):
                todo.append((k, path + " key"))
                todo.append((v, "%s[%r]" % (path, k)))
        elif isinstance(obj, (list, tuple, set, frozenset)):
            for i, v in enumerate(obj):
                todo.append((v, "%s[%d]" % (path, i)))
        for k, v in getattr(obj, "__dict__", {}).items():
            todo.append((v, "%s.%s" % (path, k)))
        for c in t.__mro__:
            for k in getattr(c, "__slots__", ()) if not isinstance(getattr(c, "__slots__", ()), str) else (c.__slots__,):
                if hasattr(obj, k):
                    todo.append((getattr(obj, k), "%s.%s" % (path, k)))
    ctx.event("objects_walked", n)
    ctx.counters["oracle_evaluations"] += n
    return kinds


def check_pickle(ctx, pure, what):
    """ the pickle names nothing but built-in, standard and own classes """
    for protocol in (0, 2, 4):
        blob = call(ctx, "pickling " + what, pickle.dumps, pure, protocol)
        strings = []
        for op, arg, _ in pickletools.genops(blob):
            if op.name == "GLOBAL":
                module = arg.split(" ")[0]
                ctx.require(
                    own_module(module) or std_module(module) or module in ("__builtin__", "copy_reg"),
                    "the pickle of %s refers to %s" % (what, arg),
                )
            elif "UNICODE" in op.name or op.name == "MEMOIZE":
                if op.name != "MEMOIZE":
                    strings.append(arg)
            elif op.name == "STACK_GLOBAL" and len(strings) >= 2:
                pass

    class Finder(pickle.Unpickler):
        def find_class(self, module, name):
            if not (own_module(module) or std_module(module)):
                ctx.fail("the pickle of %s refers to %s.%s" % (what, module, name))
            return super().find_class(module, name)

    Finder(io.BytesIO(pickle.dumps(pure, 4))).load()


# --------------------------------------------------------- foreign parameters


def numpy_version(rng, v):
    """ an equal value of a NumPy type """
    t = type(v)
    if t is bool:
        return np.bool_(v)
    if t is int and abs(v) < 2 ** 31:
        return rng.choice([np.int64, np.int32])(v)
    if t is float:
        return rng.choice([np.float64, np.float64, np.float32])(v) if float(np.float32(v)) == v else np.float64(v)
    if t is str:
        return np.str_(v)
    if t is tuple:
        return tuple(numpy_version(rng, x) for x in v)
    if t is list:
        return [numpy_version(rng, x) for x in v]
    return v


def numpy_objects(rng, a):
    """ an object array whose elements are NumPy scalars """
    out = np.empty(len(a), dtype=object)
    for i, x in enumerate(a):
        out[i] = x if isinstance(x, np.generic) else numpy_version(rng, x)
    return out


def numpify(rng, est, depth=0, p=0.6):
    """ replaces some attributes of a fitted native model; returns the names """
    changed = []
    if depth > 4:
        return changed
    for name, v in list(vars(est).items()) if hasattr(est, "__dict__") else []:
        if name in ("_sklearn_version", "random_state", "steps", "transformer_list", "verbose", "memory"):
            if name in ("steps", "transformer_list"):
                for _, sub in v:
                    changed += numpify(rng, sub, depth + 1, p)
            continue
        if name in ("transformer_weights", "vocabulary_") and isinstance(v, dict):
            setattr(est, name, {numpy_version(rng, k): numpy_version(rng, x) for k, x in v.items()})
            changed.append(name)
        elif name == "classes_" and isinstance(v, np.ndarray) and v.ndim == 1 and rng.random() < 0.5:
            try:
                setattr(est, name, numpy_objects(rng, v))
                changed.append(name)
            except AttributeError:
                pass
        elif name == "categories_" and isinstance(v, list) and rng.random() < 0.5:
            setattr(est, name, [numpy_objects(rng, c) for c in v])
            changed.append(name)
        elif name in ("statistics_", "class_prior_") and isinstance(v, np.ndarray) and v.ndim == 1 and rng.random() < 0.3:
            setattr(est, name, numpy_objects(rng, v))
            changed.append(name)
        elif type(v) in (bool, int, float, str, tuple, list) and rng.random() < p:
            if type(v) is list and v and not isinstance(v[0], (bool, int, float, str)):
                continue
            try:
                setattr(est, name, numpy_version(rng, v))
                changed.append(name)
            except AttributeError:
                pass
    for name in ("estimators_", "base_estimator_", "init_"):
        sub = getattr(est, name, None)
        if sub is None or isinstance(sub, str):
            continue
        subs = list(np.ravel(sub)) if isinstance(sub, (list, np.ndarray)) else [sub]
        for e in subs[:3]:
            if rng.random() < 0.5:
                changed += numpify(rng, e, depth + 1, p)
    return changed


def observe(ctx, s, pure):
    rows = zoo.usable_rows(ctx, s, 6)
    for method in zoo.methods(s):
        for sparse in zoo.modes(s):
            what = "%s.%s" % (s.family, method)
            # (whether it has to answer is decided by C01 to C15)
            ok, out = attempt(ctx, s.apply, pure, method, rows, sparse)
            if not ok:
                continue
            walk(ctx, out, "result of " + what, data_only=True)
            ctx.event("answers_walked")
    for name in ("classes_", "feature_names_"):
        if hasattr(pure, name):
            walk(ctx, getattr(pure, name), name)


def _plain(family):
    def case(ctx):
        s = zoo.make(ctx, family, ctx.rng.choice([1, 4]))
        pure = s.convert(ctx)
        kinds = walk(ctx, pure, s.family)
        check_pickle(ctx, pure, s.family)
        observe(ctx, s, pure)
        # predicting must not have put anything foreign into the model
        walk(ctx, pure, s.family + " after use")
        ctx.state(family, repr(sorted(s.config.items(), key=str)), *sorted(kinds))

    return case


def _numpy(family):
    def case(ctx):
        s = zoo.make(ctx, family, ctx.rng.choice([1, 4]))
        changed = numpify(ctx.rng, s.native, p=ctx.rng.choice([0.05, 0.1, 0.2, 0.6]))
        if not changed:
            raise Skip("nothing to replace")
        ctx.event("models_with_numpy_parameters")
        ok, pure = attempt(ctx, convert, s.native)
        if not ok:
            ctx.event("numpy_models_refused")
            ctx.counters["oracle_evaluations"] += 1
            ctx.state(family, "refused", *changed)
            return
        ctx.event("numpy_models_converted")
        s.config["numpy attributes"] = sorted(set(changed))
        kinds = walk(ctx, pure, "%s with NumPy values for %s" % (s.family, sorted(set(changed))))
        check_pickle(ctx, pure, s.family)
        observe(ctx, s, pure)
        ctx.state(family, "converted", repr(sorted(set(changed))), *sorted(kinds))

    return case


QUICK = {"ft_supervised": 8, "ft_unsupervised": 8, "xgb": 12, "gb": 16, "pipe": 40, "text": 40, "encoder": 40}
CASES = {}
for f in zoo.ZOO:
    n = QUICK.get(f, 25)
    CASES[f] = (_plain(f), n, n * 30)
    if not f.startswith("ft"):
        CASES[f + "_numpy"] = (_numpy(f), n, n * 30)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
