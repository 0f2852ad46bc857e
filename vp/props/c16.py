""" C16: a pickled model works on a bare Python """

import os
import pickle
import subprocess
import sys
import tempfile

from .. import zoo
from ..core import REPO, VERIF, Skip, big_cases
from ..subject import equal, is_sparse

RULE = (
    "A case converts several models of one family, records their answers, pickles them with one of the protocols 0 to 5 and "
    "lets a bare interpreter (python -I -S with only the package on its path and an import hook which records and denies "
    "everything beyond the standard library) unpickle them and answer the same calls; answers are compared bit for bit and "
    "import attempts of the package beyond the standard library are violations. Distinct: models with protocol and answers."
)
QUICK_SCALE = 5.1
REQUIRED = {"bare_answers": 600, "bare_models": 200}
PER_CASE = 5


def line_method(s, method):
    """ fastText calls take one text at a time """
    if method == "predict":
        return "line:predict:{'k': %d}" % s.k
    if method.startswith("predict:"):
        _, k, t = method.split(":")
        return "line:predict:{'k': %s, 'threshold': %s}" % (k, t)
    return "line:%s:{}" % method


def local(pure, method, X):
    try:
        if method.startswith("line:"):
            _, name, kw = method.split(":", 2)
            return ("ok", [getattr(pure, name)(row, **eval(kw)) for row in X])
        return ("ok", getattr(pure, method)(X))
    except Exception as e:
        return ("raised", type(e).__name__)


def bare(jobs):
    """ answers of the bare interpreter """
    fd, path = tempfile.mkstemp(prefix="vp-bare-")
    try:
        with os.fdopen(fd, "wb") as fh:
            pickle.dump(jobs, fh)
        exe = getattr(sys, "_base_executable", None) or sys.executable
        p = subprocess.run(
            [exe, "-I", "-S", os.path.join(VERIF, "vp", "bare.py"), REPO, path], stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, env={"PATH": "/usr/bin:/bin", "LANG": "C"}, cwd="/", timeout=300,
        )
    finally:
        os.unlink(path)
    if p.returncode != 0:
        raise RuntimeError("bare interpreter: %s" % p.stderr.decode("utf-8", "replace")[-500:])
    return pickle.loads(p.stdout)


def _run(family):
    def case(ctx):
        rng = ctx.rng
        jobs, models, problem = [], [], None
        for _ in range(PER_CASE):
            try:
                s = zoo.make(ctx, family, rng.choice([1, 4]))
            except Skip:
                continue
            pure = s.convert(ctx)
            protocol = rng.randrange(pickle.HIGHEST_PROTOCOL + 1)
            blob = zoo.dumps(ctx, s, pure, protocol)
            calls, expected = [], []
            rows = zoo.usable_rows(ctx, s, 6)
            for method in zoo.methods(s):
                for sparse in zoo.modes(s):
                    X = s.pure_input(rows, sparse)
                    name = line_method(s, method) if s.kind == "lines" else method
                    arg = pickle.dumps(X, 2)
                    calls.append((name, arg))
                    expected.append(local(pure, name, pickle.loads(arg)))
            jobs.append((blob, calls))
            models.append((s, protocol, calls, expected))
            # in this process, from the same pickle
            again = pickle.loads(blob)
            for (name, arg), e in zip(calls, expected):
                got = local(again, name, pickle.loads(arg))
                ctx.require(
                    equal(list(got), list(e)), "%s.%s changed by pickling (protocol %d)" % (s.family, name, protocol),
                    got=got, expected=e, config=s.config,
                )
        if not jobs:
            raise Skip("no model")
        res = bare(jobs)
        by_package = [a for a in res["attempts"] if a[1].split(".")[0].startswith("pure_")]
        ctx.require(not by_package, "the package tried to import %s" % by_package[:3], family=family)
        ctx.require(not res["modules"] or not _third_party(res["modules"]), "modules loaded: %s" % res["modules"])
        for (s, protocol, calls, expected), (status, answers) in zip(models, res["answers"]):
            what = "%s (protocol %d)" % (s.family, protocol)
            ctx.require(status == "ok", "%s: not loaded by a bare Python: %s" % (what, answers), config=s.config)
            ctx.event("bare_models")
            for (name, arg), e, (st, out) in zip(calls, expected, answers):
                ctx.event("bare_answers")
                ctx.require(
                    st == e[0], "%s.%s on a bare Python: %s, before pickling: %s" % (what, name, (st, out)[: 1 + (st != "ok")], e[0]),
                    config=s.config,
                )
                got = pickle.loads(out) if st == "ok" else out
                if not equal(got, e[1]):
                    ctx.fail("%s.%s on a bare Python differs" % (what, name), got=got, expected=e[1], config=s.config)
                ctx.state(family, protocol, name, repr(e)[:300])

    return case


def _third_party(names):
    """ sitecustomize and the like are part of the interpreter's installation """
    return [n for n in names if n not in ("sitecustomize", "usercustomize", "apport_python_hook", "__mp_main__")]


def _imports(ctx):
    """ importing every module of the package needs the standard library only """
    import pkgutil

    names = []
    for top in ("pure_sklearn", "pure_fasttext"):
        for _, name, _ in pkgutil.walk_packages([os.path.join(REPO, top)], top + "."):
            if ".tests" not in name:
                names.append(name)
    code = (
        "import sys; sys.dont_write_bytecode = True; sys.path.append(%r); import importlib\n"
        "for n in %r: importlib.import_module(n)\n"
        "print(sorted({m.split('.')[0] for m in sys.modules} - set(sys.stdlib_module_names)))" % (REPO, names)
    )
    exe = getattr(sys, "_base_executable", None) or sys.executable
    p = subprocess.run([exe, "-I", "-S", "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", timeout=300)
    ctx.require(p.returncode == 0, "a module cannot be imported on a bare Python", stderr=p.stderr.decode()[-800:])
    # where the third-party libraries are installed they are not loaded either
    p = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", timeout=300)
    ctx.require(p.returncode == 0, "a module cannot be imported", stderr=p.stderr.decode()[-800:])
    loaded = set(eval(p.stdout.decode())) & {"numpy", "scipy", "sklearn", "pandas", "xgboost", "fasttext", "joblib", "pybind11"}
    ctx.require(not loaded, "importing the package loads %s" % sorted(loaded))
    ctx.event("modules_imported", len(names))
    ctx.state(*names)


QUICK = {"pipe": 10, "linear": 5, "ft_supervised": 3, "ft_unsupervised": 3}
CASES = {f: (_run(f), QUICK.get(f, 4), QUICK.get(f, 4) * 40) for f in zoo.ZOO}
CASES["imports"] = (_imports, 1, 1)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
