""" fastText """

import math
import os
import shutil
import tempfile

import numpy as np

from . import data
from .core import Skip, call
from .subject import Subject

FT_WORDS = [
    "the", "good", "bad", "film", "was", "not", "very", "a", "Plot", "plot", "PLOT", "é", "café", "日本", "привет", "👍",
    "it's", "don't", "3.14", "x_1", "-", "--", ",", ".", "great!", "e\u0301", "a\u00a0b", "ü", "word", "words", "zzz",
    "\u2003wide", "under_score", "<s>", "</s", "s>", "__lab", "label__", "nul", "tab",
]
SEPARATORS = [" ", " ", " ", "  ", "\t", "\r", "\v", "\f", "\0", " \t ", "\u00a0", "\x1c", "\x85", "\u2028"]


def line(ctx, words, maxlen=10, eos=True):
    rng = ctx.rng
    maxlen = ctx.size([maxlen, maxlen, maxlen, 60], [maxlen, 80, 700])
    eos = eos and (maxlen <= 10 or rng.random() < 0.5)
    u = rng.random()
    if u < 0.05:
        return ""
    if u < 0.1:
        return rng.choice([" ", "\t \r", "\0", "\u00a0", "   "])
    out = []
    if rng.random() < 0.2:
        out.append(rng.choice(SEPARATORS))
    for i in range(rng.randint(1, maxlen)):
        v = rng.random()
        if v < 0.8:
            out.append(rng.choice(words))
        elif v < 0.9:
            out.append(rng.choice(["unseen", "Xyz", "ß", "good.", "日", "th", "__label__A", "__label__unknown"]))
        elif eos:
            out.append(rng.choice(["</s>", "</s>", "</S>", "<s>"]))
        out.append(rng.choice(SEPARATORS) if rng.random() < 0.4 else " ")
    return "".join(out)


class FTSubject(Subject):
    kind = "lines"

    def convert(self, ctx):
        from pure_fasttext import FastText

        return call(ctx, "converting a fastText model %s" % self.config, FastText, self.native)

    def native_predict(self, text, k, threshold):
        return [(p, l) for p, l in self.native.f.predict(text + "\n", k, threshold, "strict")]

    def native_vector(self, text):
        return self.native.get_sentence_vector(text).tolist()

    def apply(self, pure, method, rows, sparse=False, explicit=None):
        if method == "predict":
            return pure.predict(list(rows), k=self.k)
        if method.startswith("predict:"):
            _, k, threshold = method.split(":")
            return pure.predict(list(rows), k=int(k), threshold=float(threshold))
        return [getattr(pure, method)(row) for row in rows]

    def split(self, method, out):
        return list(zip(*out)) if method.startswith("predict") else list(out)

    # the vectors are sums of single precision numbers
    def check(self, ctx, pure, method, rows, sparse=False, explicit=None, ref=None):
        what = "fastText.%s" % method
        out = call(ctx, what, self.apply, pure, method, rows)
        ctx.event("answers_compared", len(rows))
        ctx.event("method:%s" % method)
        if method == "predict":
            labels, scores = out
            ctx.require(len(labels) == len(rows) and len(scores) == len(rows), what + ": wrong number of answers")
            for row, l, p in zip(rows, labels, scores):
                self.verify_prediction(ctx, row, (l, p), self.k, 0.0)
        else:
            for row, v in zip(rows, out):
                if method == "get_sentence_vector":
                    r = self.native_vector(row)
                else:
                    r = self.native.get_word_vector(row).tolist()
                self.verify_vector(ctx, what, row, v, r)
        return out

    def verify_vector(self, ctx, what, row, v, r):
        ctx.require(isinstance(v, list) and len(v) == len(r), "%s of %r: wrong shape" % (what, row), got=v)
        # (unsupervised sentences are averages of unit vectors)
        unit = what.endswith("get_sentence_vector") and not self.supervised
        scale = max(map(abs, r)) + (1.0 if unit else max(self.scale, 1e-30))
        for a, b in zip(v, r):
            ctx.counters["oracle_evaluations"] += 1
            if not (isinstance(a, float) and abs(a - b) <= 2e-6 * scale * (1 + len(row) / 50.0)):
                ctx.fail("%s of %r: %r, native %r" % (what, row, v[:6], r[:6]), config=self.config)
        ctx.event("zero_vectors", int(not any(r)))
        ctx.state(what, [round(x, 5) for x in r[:4]])

    def tolerance(self):
        """ rounding of a score: single precision dot products, softmax tables """
        try:
            return self._tol
        except AttributeError:
            logit = float(np.abs(self.native.get_output_matrix()).sum(axis=1).max()) * self.scale
            self._tol = 3e-6 + 5e-7 * logit
            return self._tol

    def verify_prediction(self, ctx, row, got, k, threshold, exact=False):
        """
        Native scores are p + 1e-5 in single precision.  Labels have to come in
        the native order where native scores differ by more than rounding.
        """
        what = "fastText.predict of %r (k=%d, threshold=%r)" % (row, k, threshold)
        ref = self.native_predict(row, k, threshold)
        every = {l: p for p, l in self.native_predict(row, -1, 0.0)}
        labels, scores = got
        det = {"native": ref[:6], "got": (labels[:6], list(scores)[:6]), "config": self.config}
        ctx.require(len(labels) == len(scores), what + ": labels and scores differ in number", **det)
        ctx.require(len(set(labels)) == len(labels), what + ": a label appears twice", **det)
        tol = self.tolerance()
        borderline = 0 if exact else sum(1 for p in every.values() if abs(p - 1e-5 - threshold) < tol)
        ctx.require(
            len(labels) == len(ref) or (borderline and abs(len(labels) - len(ref)) <= borderline),
            what + ": %d labels, native %d" % (len(labels), len(ref)), **det
        )
        for i, (l, p) in enumerate(zip(labels, scores)):
            ctx.require(l in every, what + ": unknown label %r" % (l,), **det)
            ctx.require(
                type(p) is float and 0.0 <= p <= 1.0 and abs(p + 1e-5 - every[l]) <= tol,
                what + ": label %r has score %r, native %r" % (l, p, every[l]), **det
            )
            if i < len(ref) and l != ref[i][1]:
                ctx.require(
                    abs(every[l] - ref[i][0]) <= tol, what + ": label %r at rank %d, native %r" % (l, i, ref[i][1]), **det
                )
            if i:
                ctx.require(scores[i - 1] >= p, what + ": scores are not sorted", **det)
        ctx.event("labels_compared", len(labels))
        ctx.event("empty_predictions", int(not ref))
        ctx.state("predict", k, threshold, [l for l in labels[:3]], [round(p, 4) for p in scores[:3]])


def set_weights(native, I, O, folder):
    """ gives a trained native model other matrices, through its own file format """
    path = os.path.join(folder, "model.bin")
    native.save_model(path)
    with open(path, "rb") as fh:
        blob = bytearray(fh.read())
    out = len(blob) - 4 * O.size
    inp = out - 17 - 4 * I.size
    for at, M, old in ((out, O, native.get_output_matrix()), (inp, I, native.get_input_matrix())):
        if not np.array_equal(np.frombuffer(bytes(blob[at: at + 4 * M.size]), "<f4").reshape(M.shape), old):
            raise Skip("unknown model file layout")
        blob[at: at + 4 * M.size] = M.astype("<f4").tobytes()
    with open(path, "wb") as fh:
        fh.write(blob)
    native.f.loadModel(path)


def other_weights(ctx, native, supervised, folder):
    """ weights no short training reaches: exact, tiny, huge, zero, equal """
    rng, r = ctx.rng, ctx.np
    I, O = native.get_input_matrix(), native.get_output_matrix()
    mode = rng.choice(["grid", "grid", "tiny", "huge", "zeros", "uniform"])
    A, B = r.randint(-4, 5, I.shape).astype(float), r.randint(-4, 5, O.shape).astype(float)
    if mode == "tiny":
        A, B = r.randn(*I.shape) * 10.0 ** r.randint(-12, -2, (len(I), 1)), B * 1e-3
    elif mode == "huge":
        A, B = A * rng.choice([16.0, 256.0, 4096.0]), B * rng.choice([1.0, 16.0])
    elif mode == "zeros":
        A[r.rand(len(A)) < 0.6] = 0.0
    elif mode == "uniform":
        B[:] = B[0]
    set_weights(native, A, B, folder)
    return mode


def make_ft(ctx, kind=None, n_rows=None, **override):
    """ train a native model on a scratch file (one thread) """
    import fasttext

    rng = ctx.rng
    kind = kind or rng.choice(["supervised", "supervised", "cbow", "skipgram"])
    words = rng.sample(FT_WORDS, rng.choice([5, 15, len(FT_WORDS)]))
    folder = tempfile.mkdtemp(prefix="vp-ft-")
    path = os.path.join(folder, "train.txt")
    supervised = kind == "supervised"
    prefix = rng.choice(["__label__", "__label__", "#", "L:"]) if supervised else "__label__"
    if not supervised and rng.random() < 0.5:
        # words may contain, but not start with, the prefix for labels
        words.append(rng.choice(["in__label__side", "x__label__"]))
        inner = [w[i:] for w in words for i in range(1, len(w)) if not any(v.startswith(w[i:]) for v in words)]
        prefix = rng.choice(["__label__", rng.choice(inner or ["__label__"])])
    if ctx.big:
        words = words + ["w%d" % i for i in range(rng.choice([100, 1500]))]
    classes = ctx.size([1, 2, 3, 4, 5, 12, 12, 90], [3, 12, 90])
    lines = max(ctx.size([12, 60], [200, 2000]), classes)
    rare = supervised and rng.random() < 0.12
    if rare:
        # the end-of-sentence word occurs too rarely to be in the dictionary
        words, lines = words[: rng.choice([2, 4])], 12
    if supervised and override.get("loss") == "ns":
        classes = max(classes, 2)  # native negative sampling never ends with one label
    labels = rng.sample(["c%d" % i for i in range(90 if classes > 12 else 0)] + ["A", "b", "neg", "pos", "日", "x-1", "1", "2", "10", "long_label", "é", "Z"], classes)
    config = {"kind": kind, "words": len(words), "classes": classes, "prefix": prefix}
    try:
        with open(path, "w", encoding="utf-8", newline="\n") as fh:
            for i in range(lines):
                text = " ".join(rng.choice(words) for _ in range(rng.randint(1, 9)))
                if supervised:
                    text = "%s%s %s" % (prefix, labels[i % classes], text)
                fh.write(text + "\n")
        kw = {"dim": ctx.size([1, 2, 5, 16], [16, 120, 300]), "epoch": rng.choice([1, 5, 20]), "thread": 1, "verbose": 0, "minCount": 13 if rare else rng.choice([1, 1, 1, 2]) if supervised else 1,
              "lr": rng.choice([0.05, 0.5, 1.0]), "bucket": 10}
        if ctx.big and kw["dim"] > 16:
            kw["epoch"] = 1
        kw["label"] = prefix
        if not supervised:
            kw.update(model=kind, maxn=0, minn=0, loss=rng.choice(["ns", "hs", "softmax"]))
            kw["lr"] = 0.05
        kw.update(override)
        config.update(kw)
        try:
            with open(os.devnull, "w") as null:
                saved = os.dup(2)
                os.dup2(null.fileno(), 2)
                try:
                    train = fasttext.train_supervised if supervised else fasttext.train_unsupervised
                    native = train(path, **kw)
                finally:
                    os.dup2(saved, 2)
                    os.close(saved)
        except Exception as e:
            raise Skip("native training: %s" % str(e)[:80])
        weights = None
        if not override and native.get_input_matrix().size and rng.random() < 0.4:
            weights = config["weights"] = other_weights(ctx, native, supervised, folder)
    finally:
        shutil.rmtree(folder)
    M = native.get_input_matrix()
    if M.size == 0:
        raise Skip("no word is frequent enough")
    if not np.all(np.isfinite(M)):
        raise Skip("native training diverged")
    m = n_rows or ctx.size([1, 4, 15], [15, 150])
    # native unsupervised sentences end at the first end-of-sentence word too
    rows = [line(ctx, words) for _ in range(m)]
    methods = ["get_sentence_vector"] + (["predict"] if supervised else [])
    s = FTSubject(ctx, "FastText", native, rows, methods, config, scale=float(np.abs(M).max()), k=rng.choice([1, 2, 5]))
    s.weights = weights
    s.supervised, s.words, s.labels, s.prefix = supervised, words, labels, prefix
    return s
