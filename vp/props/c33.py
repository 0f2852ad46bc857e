""" C33: answers do not depend on how the interpreter was set up """

import os
import pickle
import subprocess
import sys
import tempfile
import zipfile

from .. import wild, zoo
from ..core import REPO, VERIF, Skip, big_cases
from ..subject import convert, equal
from .c16 import line_method, local
from .c18 import inputs
from .c28 import run_child

RULE = (
    "A case converts several models of one family, records their answers and refusals to ordinary and improper input in this "
    "process, and asks pickled copies in new interpreters (standard library and package only) with other settings: assertions "
    "stripped, warnings as errors, development mode, bytes warnings as errors, hash seeds, locales and text encodings, integer "
    "digit limit, package within a zip archive, garbage collector off or frantic, standard streams closed, working directory "
    "gone, few file descriptors, recursion limit 150, thread with a small stack, event loop, generator, forked child, subinterpreter, "
    "profiler, tracer. Answers are compared bit for bit. Distinct: models with settings and answers."
)
QUICK_SCALE = 3
REQUIRED = {"answers_elsewhere": 1500, "refusals_elsewhere": 60, "interpreters": 150, "file_answers": 50, "conversions_elsewhere": 200, "conversions_refused_elsewhere": 30}
PER_CASE = 3
SETUPS = {
    "-O": (["-O"], {}, ""),
    "-OO": (["-OO"], {}, ""),
    "-W error": (["-W", "error"], {}, ""),
    "-X dev": (["-X", "dev"], {}, ""),
    "-bb": (["-bb"], {}, ""),
    "hash seed 0": ([], {"PYTHONHASHSEED": "0"}, ""),
    "hash seed 1": ([], {"PYTHONHASHSEED": "1"}, ""),
    "hash seed 77": ([], {"PYTHONHASHSEED": "77"}, ""),
    "C locale": ([], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, ""),
    "ascii streams": ([], {"PYTHONIOENCODING": "ascii:strict", "LC_ALL": "POSIX"}, "digits"),
    "utf8 mode": (["-X", "utf8"], {"LC_ALL": "C.UTF-8"}, ""),
    "zip": ([], {}, "zip"),
    "zip -O": (["-O"], {}, "zip"),
    "gc off": ([], {}, "gc_off,switching"),
    "gc frantic": ([], {}, "gc_frantic"),
    "closed streams": ([], {}, "closed_streams"),
    "no working directory": ([], {}, "cwd_gone"),
    "few descriptors": ([], {}, "no_descriptors,decimal"),
    "recursion": ([], {}, "recursion"),
    "thread": ([], {}, "thread"),
    "loop": ([], {}, "loop,generator"),
    "generator": ([], {}, "generator"),
    "forked": ([], {}, "forked"),
    "subinterpreter": ([], {}, "subinterpreter"),
    "profiled": ([], {}, "profiled"),
    "traced": ([], {}, "traced"),
    "no frozen modules": (["-X", "frozen_modules=off", "-X", "int_max_str_digits=640"], {}, ""),
    "malloc debug": ([], {"PYTHONMALLOC": "debug", "PYTHONFAULTHANDLER": "1"}, ""),
}
BAD = [[], None, 5, "text", [[1.0, "a"]], [[]], [None], [{}], [[float("inf")] * 3], [1.0], {"a": 1}, [[1.0], [1.0, 2.0]]]


def archive():
    """ the package in a zip archive """
    fd, path = tempfile.mkstemp(prefix="vp-c33-", suffix=".zip")
    with os.fdopen(fd, "wb") as fh, zipfile.ZipFile(fh, "w") as z:
        for top in ("pure_sklearn", "pure_fasttext"):
            for folder, subs, files in os.walk(os.path.join(REPO, top)):
                subs[:] = [d for d in subs if d not in ("tests", "__pycache__")]
                for f in files:
                    if f.endswith(".py"):
                        full = os.path.join(folder, f)
                        z.write(full, os.path.relpath(full, REPO))
    return path


def elsewhere(setup, jobs):
    """ answers of an interpreter with other settings """
    flags, env, settings = SETUPS[setup]
    exe = getattr(sys, "_base_executable", None) or sys.executable
    fd, job = tempfile.mkstemp(prefix="vp-c33-")
    out, package = job + ".out", REPO
    try:
        with os.fdopen(fd, "wb") as fh:
            pickle.dump(jobs, fh)
        if "zip" in settings:
            package = archive()
        p = subprocess.run(
            [exe, "-S", "-s"] + flags + [os.path.join(VERIF, "vp", "settings.py"), package, settings, job, out],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict({"PATH": "/usr/bin:/bin", "LANG": "C"}, **env), cwd="/",
            timeout=300,
        )
        if p.returncode != 0 or not os.path.exists(out):
            return None, p.stderr.decode("utf-8", "replace")[-500:]
        with open(out, "rb") as fh:
            return pickle.load(fh), None
    finally:
        for path in (job, out) + ((package,) if package != REPO else ()):
            if os.path.exists(path):
                os.unlink(path)


def _run(family):
    def case(ctx):
        rng = ctx.rng
        jobs, models = [], []
        for _ in range(PER_CASE):
            try:
                s = zoo.make(ctx, family, rng.choice([1, 3]))
            except Skip:
                continue
            pure = s.convert(ctx)
            blob = zoo.dumps(ctx, s, pure, rng.choice([2, 4, 5]))
            rows = zoo.usable_rows(ctx, s, 5)
            calls, expected = [], []
            for method in zoo.methods(s):
                name = line_method(s, method) if s.kind == "lines" else method
                args = [s.pure_input(rows, sparse) for sparse in zoo.modes(s)]
                args += [bad for bad in rng.sample(BAD, 2)] if s.kind != "lines" else []
                for X in args:
                    arg = pickle.dumps(X, 2)
                    calls.append((name, arg))
                    expected.append(local(pickle.loads(blob), name, pickle.loads(arg)))
            jobs.append((blob, calls))
            models.append((s, calls, expected))
        if not jobs:
            raise Skip("no model")
        for setup in rng.sample(sorted(SETUPS), 3):
            if setup == "recursion" and family == "pipe":
                continue
            answers, problem = elsewhere(setup, jobs)
            ctx.require(answers is not None, "an interpreter with %s: %s" % (setup, problem), family=family)
            ctx.event("interpreters")
            ctx.counters["with " + setup] += 1
            for (s, calls, expected), (status, got) in zip(models, answers):
                ctx.require(status == "ok", "%s cannot be loaded with %s: %s" % (s.family, setup, got), config=s.config)
                for (name, arg), e, (st, out) in zip(calls, expected, got):
                    what = "%s.%s with %s" % (s.family, name, setup)
                    ctx.require(
                        st == e[0], "%s: %s, otherwise %s" % (what, (st, out)[: 1 + (st != "ok")], e[: 1 + (e[0] != "ok")]),
                        config=s.config, argument=pickle.loads(arg),
                    )
                    ctx.event("answers_elsewhere" if st == "ok" else "refusals_elsewhere")
                    if st == "ok" and not equal(pickle.loads(out), e[1]):
                        ctx.fail("%s differs" % what, got=pickle.loads(out), expected=e[1], config=s.config)
                    ctx.state(family, setup, name, repr(e)[:200])

    return case


# (xgboost itself cannot be imported with -OO)
def _files(ctx):
    """ documents read from files, in any encoding """
    import shutil

    from sklearn.feature_extraction.text import CountVectorizer, HashingVectorizer, TfidfVectorizer

    rng = ctx.rng
    encoding = rng.choice(["utf-8", "utf-8", "latin-1", "utf-16", "cp1251"])
    letters = {"latin-1": "äöüéß ab", "cp1251": "привет ab"}.get(encoding, "äößпр日本é ab")
    docs = ["".join(rng.choice(letters) for _ in range(rng.randint(0, 40))) for _ in range(5)]
    cls = rng.choice([CountVectorizer, TfidfVectorizer, HashingVectorizer])
    kw = {"input": "filename", "encoding": encoding, "decode_error": rng.choice(["strict", "ignore", "replace"])}
    kw.update(analyzer=rng.choice(["word", "char", "char_wb"]), strip_accents=rng.choice([None, "unicode", "ascii"]))
    kw["lowercase"] = rng.random() < 0.5
    folder = tempfile.mkdtemp(prefix="vp-c33-")
    try:
        paths = []
        for i, doc in enumerate(docs):
            paths.append(os.path.join(folder, "d%d.txt" % i))
            with open(paths[-1], "wb") as fh:
                fh.write(doc.encode(encoding))
        broken = os.path.join(folder, "broken.txt")
        with open(broken, "wb") as fh:
            fh.write("ab ä".encode("utf-8") + b"\xff\xd8\r\n\x1a\x98")
        try:
            native = cls(**kw).fit(paths)
        except ValueError as e:
            raise Skip("no words: %s" % e)
        pure = convert(native)
        blob = pickle.dumps(pure)
        calls = [("transform", pickle.dumps(X, 2)) for X in (paths, paths[:1], [broken], [os.path.join(folder, "absent")])]
        expected = [local(pure, name, pickle.loads(arg)) for name, arg in calls]
        for setup in rng.sample(sorted(SETUPS), 2) + [rng.choice(["C locale", "ascii streams", "utf8 mode", "few descriptors"])]:
            answers, problem = elsewhere(setup, [(blob, calls)])
            ctx.require(answers is not None, "an interpreter with %s: %s" % (setup, problem), config=kw)
            ctx.require(answers[0][0] == "ok", "a vectorizer cannot be loaded with %s: %s" % (setup, answers[0][1]))
            for (name, arg), e, (st, out) in zip(calls, expected, answers[0][1]):
                what = "%s of files with %s" % (cls.__name__, setup)
                ctx.require(st == e[0], "%s: %s, otherwise %s" % (what, (st, out)[: 1 + (st != "ok")], e[: 1 + (e[0] != "ok")]), config=kw)
                ctx.require(st != "ok" or equal(pickle.loads(out), e[1]), "%s differs" % what, config=kw)
                ctx.event("answers_elsewhere" if st == "ok" else "refusals_elsewhere")
            ctx.event("file_answers", len(calls))
            ctx.state("files", setup, repr(kw))
    finally:
        shutil.rmtree(folder, ignore_errors=True)


CONVERTING = {"-O": ["-O"], "-X dev": ["-X", "dev"], "-bb": ["-bb"]}


def _conversion(ctx):
    """ which native models are accepted, and what the conversions answer """
    from pure_sklearn.map import convert_estimator

    jobs, expected = [], []
    for name in sorted(wild.BUILDERS):
        try:
            native, kind, rows, _, config = wild.BUILDERS[name](ctx)
            blob = pickle.dumps(native)
        except (Skip, pickle.PicklingError, AttributeError, TypeError):
            continue
        calls = [(m, inputs(kind, rows)[1]) for m in ("predict", "predict_proba", "transform")]
        try:
            pure = convert_estimator(pickle.loads(blob))
        except Exception as e:
            expected.append((name, config, "raised", "%s: %s" % (type(e).__name__, e)))
        else:
            expected.append((name, config, "ok", [local(pure, m, pickle.loads(pickle.dumps(X))) for m, X in calls]))
        jobs.append(("plain", blob, calls))
    setup = ctx.rng.choice(sorted(CONVERTING))
    _, _, results = run_child(jobs, str(ctx.rng.randrange(1, 1000)), CONVERTING[setup])
    ctx.counters["converting with " + setup] += 1
    for (name, config, status, e), (st, _, got) in zip(expected, results):
        what = "%s %s with %s" % (name, config, setup)
        ctx.require(st == status, "%s: conversion %s, otherwise %s" % (what, st, status), otherwise=e, got=got)
        ctx.event("conversions_elsewhere")
        ctx.event("conversions_refused_elsewhere", st != "ok")
        if st == "ok":
            for a, b in zip(got, e):
                ctx.require(equal(list(a), list(b)), "%s: another answer" % what, got=a, expected=b)
                ctx.event("answers_elsewhere")
        ctx.state("conversion", setup, name, repr(config)[:100])


QUICK = {"pipe": 6}
CASES = {f: (_run(f), QUICK.get(f, 4), 160) for f in zoo.ZOO}
CASES["files"] = (_files, 12, 300)
CASES["conversion"] = (_conversion, 12, 300)
CASES.update(big_cases({k: c for k, c in CASES.items() if k in zoo.ZOO}, QUICK_SCALE, 2, 30))
