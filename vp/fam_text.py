""" Text vectorizers and dict vectorizers """

import math

import numpy as np
import scipy.sparse as sp
from sklearn.feature_extraction import DictVectorizer
from sklearn.feature_extraction.text import (
    CountVectorizer, HashingVectorizer, TfidfTransformer, TfidfVectorizer,
)

from . import data
from .core import Skip, call
from .subject import Subject, compare_matrix, fit_or_skip, is_sparse, same_number

# --------------------------------------------------------- sparse comparison


def native_rows(M):
    """ csr matrix -> one {column: value} per row, without zeros """
    M = M.tocsr().copy()
    M.sum_duplicates()
    out = []
    for i in range(M.shape[0]):
        a, b = M.indptr[i], M.indptr[i + 1]
        out.append({int(j): v for j, v in zip(M.indices[a:b], M.data[a:b].tolist()) if v != 0})
    return out


def compare_rows(ctx, what, out, ref, width, rtol, atol=1e-300, **details):
    ctx.require(is_sparse(out), "%s: result is a %s" % (what, type(out).__name__), **details)
    ctx.require(out.size == width, "%s: %r columns, native %r" % (what, out.size, width), **details)
    ctx.require(len(out) == len(ref), "%s: %d rows, native %d" % (what, len(out), len(ref)), **details)
    for i, (g, r) in enumerate(zip(out, ref)):
        for k in g:
            ctx.require(
                type(k) is int and 0 <= k < width, "%s: row %d has a column %r" % (what, i, k), row=g, **details
            )
        g = {k: v for k, v in g.items() if v != 0}
        for k in sorted(set(g) | set(r)):
            ctx.counters["oracle_evaluations"] += 1
            if not same_number(g.get(k, 0.0), r.get(k, 0.0), rtol, atol):
                ctx.fail(
                    "%s: row %d column %d is %r, native %r" % (what, i, k, g.get(k, 0.0), r.get(k, 0.0)), **details
                )


class TextSubject(Subject):
    kind = "docs"
    tol = 0.0

    def reference(self, method, rows, sparse=False):
        try:
            with np.errstate(all="ignore"):
                M = getattr(self.native, method)(self.native_input(rows))
        except Exception as e:
            raise Skip("native %s.%s: %s" % (self.family, method, type(e).__name__))
        if not np.all(np.isfinite(M.data)):
            raise Skip("native result is not finite")
        return M

    def verify(self, ctx, pure, what, method, rows, out, ref):
        refs = native_rows(ref)
        compare_rows(ctx, what, out, refs, ref.shape[1], self.tol, config=self.config, documents=rows)
        repeated = sum(1 for r in refs for v in r.values() if v not in (0, 1, -1))
        ctx.event("entries_compared", sum(map(len, refs)))
        ctx.event("empty_rows", sum(1 for r in refs if not r))
        if repeated:
            ctx.event("rows_with_repeated_or_weighted_entries", sum(1 for r in refs if any(v not in (0, 1) for v in r.values())))
        for r in refs[:6]:
            ctx.state(self.family, sorted((k, round(v, 6)) for k, v in r.items())[:40])


def text_options(ctx, hashing=False):
    rng = ctx.rng
    analyzer = rng.choice(["word", "word", "char", "char_wb"])
    lo = rng.choice([1, 1, 1, 2, 3])
    hi = lo + rng.choice([0, 0, 1, 2, 3])
    if rng.random() < 0.06:
        hi = lo + rng.choice([7, 11, 20])
    kw = {
        "analyzer": analyzer,
        "ngram_range": rng.choice([(lo, hi), (lo, hi), [lo, hi]]),
        "lowercase": rng.random() < 0.6,
        "strip_accents": rng.choice([None, None, "ascii", "unicode"]),
        "binary": rng.random() < 0.25,
    }
    if analyzer == "word":
        kw["token_pattern"] = rng.choice([
            r"(?u)\b\w\w+\b", r"(?u)\b\w\w+\b", r"\S+", r"\w", r"(?u)\w+", r"[a-z]+", r"(\w)\w*", r"(?i)[A-Z']{2,}", r"\d+|\w",
        ])
        u = rng.random()
        if u < 0.4:
            stop = rng.sample(data.WORDS, rng.randint(1, 12)) + rng.choice([[], ["the", "is"], ["a b"]])
            kw["stop_words"] = stop
    if rng.random() < 0.3:
        kw["encoding"] = rng.choice(["utf-8", "latin-1", "utf-16", "cp1252", "ascii"])
        kw["decode_error"] = rng.choice(["ignore", "replace", "strict"])
    return kw


def encode_some(ctx, docs, kw):
    """ some documents as bytes, sometimes malformed in the model's encoding """
    rng = ctx.rng
    enc = kw.get("encoding", "utf-8")
    err = kw.get("decode_error", "strict")
    out = []
    for d in docs:
        if rng.random() < 0.3:
            b = d.encode(enc, "ignore")
            if err != "strict" and rng.random() < 0.5:
                b = b[: len(b) // 2] + bytes([rng.randrange(256)]) + b[len(b) // 2:]
            out.append(b)
        else:
            out.append(d)
    return out


TEXT_KINDS = ("count", "tfidf", "transformer")


def make_text(ctx, kind=None, n_rows=None, plain=False):
    rng, r = ctx.rng, ctx.np
    kind = kind or rng.choice(("count", "tfidf"))
    if kind == "transformer":
        return make_transformer(ctx, n_rows)
    kw = text_options(ctx)
    docs = data.corpus(ctx, ctx.size([2, 6, 20], [20, 400]))
    if rng.random() < 0.15:
        terms = rng.sample(["good", "bad", "the", "é", "go", "oo", " g", "日本", "not good", "x1", "a", "b", "the a"], 6)
        kw["vocabulary"] = rng.choice([
            terms, {t: i for i, t in enumerate(reversed(terms))},
        ])
    if rng.random() < 0.2:
        kw["max_features"] = rng.choice([1, 3, 10])
    if rng.random() < 0.15:
        kw["min_df"] = rng.choice([2, 0.2])
    if rng.random() < 0.15:
        kw["max_df"] = rng.choice([0.7, 3])
    tol = 0.0
    if kind == "tfidf":
        kw.update(
            norm=rng.choice(["l2", "l2", "l1", None]), use_idf=rng.random() < 0.75,
            smooth_idf=rng.random() < 0.7, sublinear_tf=rng.random() < 0.4,
        )
        kw["dtype"] = rng.choice([np.float64, np.float64, np.float64, np.float32])
        tol = 1e-12 if kw["dtype"] is np.float64 else 2e-6
        cls = TfidfVectorizer
    else:
        kw["dtype"] = rng.choice([np.int64, np.int64, np.float64, np.int32, np.float32, int, float])
        cls = CountVectorizer
    est = cls(**kw)
    fit_or_skip(est, docs)
    if kind == "tfidf" and kw["use_idf"] and not np.all(np.isfinite(est.idf_)):
        raise Skip("native idf is not finite")
    m = n_rows or ctx.size([1, 3, 10], [3, 300, 1200])
    batch = [rng.choice(docs) if rng.random() < 0.3 else data.document(ctx) for _ in range(m)]
    if rng.random() < 0.3:
        batch += [" ".join([rng.choice(ctx.vocab)] * rng.randint(2, 9))]
    if not plain and "encoding" in kw or (not plain and rng.random() < 0.2):
        batch = encode_some(ctx, batch, kw)
    config = {k: v for k, v in kw.items() if k != "dtype"}
    config.update(kind=kind, terms=len(est.vocabulary_), dtype=getattr(kw["dtype"], "__name__", ""))
    return TextSubject(ctx, cls.__name__, est, batch, ["transform"], config, tol=tol)


class TransformerSubject(TextSubject):
    kind = "counts"

    def native_input(self, rows, sparse=False):
        return sp.csr_matrix(np.array(rows, dtype=float))

    def pure_input(self, rows, sparse=True, explicit=None):
        from .subject import new_sparse, sparse_rows

        return new_sparse(sparse_rows(rows), len(rows[0]))

    @property
    def width(self):
        return len(self.rows[0])


def make_transformer(ctx, n_rows=None):
    rng, r = ctx.rng, ctx.np
    n, d = rng.choice([2, 8, 30]), ctx.size([1, 3, 12, 60], [60, 400, 2500])
    X = data.counts(ctx, n, d, high=rng.choice([2, 6, 1000]), density=rng.choice([0.1, 0.5]))
    kw = {
        "norm": rng.choice(["l2", "l2", "l1", None]), "use_idf": rng.random() < 0.7,
        "smooth_idf": rng.random() < 0.8, "sublinear_tf": rng.random() < 0.5,
    }
    est = TfidfTransformer(**kw)
    with np.errstate(all="ignore"):
        fit_or_skip(est, sp.csr_matrix(X))
    if kw["use_idf"] and not np.all(np.isfinite(est.idf_)):
        raise Skip("native idf is not finite")
    m = n_rows or ctx.size([1, 3, 10], [3, 30, 400])
    rows = data.counts(ctx, m, d, high=rng.choice([3, 1000]), density=0.4)
    if rng.random() < 0.3:
        rows = rows * 0.37
    return TransformerSubject(
        ctx, "TfidfTransformer", est, rows.tolist(), ["transform"], {"kind": "transformer", "features": d, **kw}, tol=1e-12,
    )


# ------------------------------------------------------------------- hashing

M32 = 0xFFFFFFFF


def _rotr(x, n):
    return ((x >> n) | (x << (32 - n))) & M32


def _unfmix(h):
    h ^= h >> 16
    h = (h * pow(0xC2B2AE35, -1, 2 ** 32)) & M32
    h ^= (h >> 13) ^ (h >> 26)
    h = (h * pow(0x85EBCA6B, -1, 2 ** 32)) & M32
    h ^= h >> 16
    return h


def _block(h, k):
    k = (k * 0xCC9E2D51) & M32
    k = ((k << 15) | (k >> 17)) & M32
    k = (k * 0x1B873593) & M32
    h ^= k
    h = ((h << 13) | (h >> 19)) & M32
    return (h * 5 + 0xE6546B64) & M32


def token_with_hash(rng, target):
    """ an 8-letter word whose 32-bit murmur3 hash is exactly target """
    letters = b"abcdefghijklmnopqrstuvwxyz0123456789_"
    good = set(letters)
    before = _unfmix(target & M32) ^ 8
    before = ((before - 0xE6546B64) * pow(5, -1, 2 ** 32)) & M32
    before = _rotr(before, 13)
    for _ in range(200000):
        head = bytes(rng.choice(letters) for _ in range(4))
        h = _block(0, int.from_bytes(head, "little"))
        k = before ^ h
        k = (k * pow(0x1B873593, -1, 2 ** 32)) & M32
        k = _rotr(k, 15)
        k = (k * pow(0xCC9E2D51, -1, 2 ** 32)) & M32
        tail = k.to_bytes(4, "little")
        if all(c in good for c in tail):
            return (head + tail).decode()
    return None


def longest(rng):
    return rng.randint(1, 23) if rng.random() < 0.85 else rng.choice([63, 64, 65, 255, 256, 257, 260, 511, 1023, 4096, 5003, 70001])


def make_hashing(ctx, kind="any", n_rows=None):
    from sklearn.utils import murmurhash3_32

    rng, r = ctx.rng, ctx.np
    kw = text_options(ctx)
    kw.update(
        n_features=rng.choice([1, 2, 3, 7, 16, 255, 1000, 2 ** 18, 2 ** 20, 2 ** 31 - 1]),
        norm=rng.choice([None, "l1", "l2"]), alternate_sign=rng.random() < 0.7,
        dtype=rng.choice([np.float64, np.float64, np.float64, np.float32]),
    )
    m = n_rows or ctx.size([1, 3, 10], [3, 200, 1100])
    if kind == "edge":
        kw.update(analyzer="word", ngram_range=(1, 1), token_pattern=r"\w+", strip_accents=None, stop_words=None)
        # (the native library puts a token with hash -2**31 outside of the matrix)
        targets = [0, 1, -1, 2 ** 31 - 1, -2 ** 31 + 1, 2 ** 30, -2 ** 30 - 1, -kw["n_features"], kw["n_features"]]
        targets = [t for t in targets if -2 ** 31 <= t < 2 ** 31]
        words = []
        for t in rng.sample(targets, min(3, len(targets))):
            w = token_with_hash(rng, t)
            if w is None:
                continue
            if murmurhash3_32(w, seed=0) != t:
                raise Skip("hash inversion failed")
            words.append(w)
            ctx.event("tokens_with_chosen_hash")
        if not words:
            raise Skip("no token found")
        docs = [" ".join(rng.choice(words) for _ in range(rng.randint(1, 5))) for _ in range(m)] + words
    elif kind == "lengths":
        # every tail length of the block hash, in one to four byte scripts
        kw.update(analyzer="word", ngram_range=(1, 1), token_pattern=r"\S+", stop_words=None)
        alphabet = rng.choice(["ab1", "éß", "日本", "👍🏽", "aé日👍"])
        docs = [
            " ".join("".join(rng.choice(alphabet) for _ in range(longest(rng))) for _ in range(rng.randint(1, 6)))
            for _ in range(m)
        ]
    else:
        data.corpus(ctx, 1)
        docs = [data.document(ctx) for _ in range(m)]
        if rng.random() < 0.3:
            docs.append(" ".join([rng.choice(ctx.vocab)] * 5))
        if "encoding" in kw:
            docs = encode_some(ctx, docs, kw)
    est = HashingVectorizer(**kw)
    if rng.random() < 0.5:
        fit_or_skip(est, ["a"])
    config = {k: v for k, v in kw.items() if k != "dtype"}
    config.update(kind="hashing-" + kind, dtype=kw["dtype"].__name__)
    return TextSubject(
        ctx, "HashingVectorizer", est, docs, ["transform"], config, tol=1e-12 if kw["dtype"] is np.float64 else 2e-6,
    )


# ---------------------------------------------------------------- dictionaries


class DictSubject(Subject):
    kind = "dicts"
    tol = 0.0

    def reference(self, method, rows, sparse=False):
        try:
            return getattr(self.native, method)(rows)
        except Exception as e:
            raise Skip("native %s.%s: %s" % (self.family, method, type(e).__name__))

    def verify(self, ctx, pure, what, method, rows, out, ref):
        det = {"config": self.config, "rows": rows}
        if sp.issparse(ref):
            compare_rows(ctx, what, out, native_rows(ref), ref.shape[1], self.tol, 0.0, **det)
            n = ref.nnz
        else:
            compare_matrix(ctx, what, out, ref.tolist(), rtol=self.tol, atol=0.0, **det)
            n = int((ref != 0).sum())
        ctx.event("entries_compared", n)
        ctx.state(repr(sorted(self.config.items(), key=str)), n)


NAMES = ["age", "city", "x", "x=1", "a b", "", "é", "日本", "city=Rome", "f1", "f10", "2", "A", "name"]
VALUES = ["Rome", "1", "", "é", "a=b", "Paris", "日本", "x", "New York"]


def mapping(ctx, names, values):
    rng = ctx.rng
    row = {}
    for _ in range(ctx.size([0, 1, 2, 3, 6], [0, 3, 20, 600])):
        k = rng.choice(names)
        u = rng.random()
        if u < 0.4:
            v = rng.choice(values)
        elif u < 0.6:
            v = rng.choice([0, 1, -3, 7, 12345])
        elif u < 0.75:
            v = rng.choice([True, False])
        else:
            v = rng.choice([0.5, -2.25, 0.0, 1e6, 3.0])
        row[k] = v
    items = list(row.items())
    rng.shuffle(items)
    return dict(items)


def make_dict(ctx, n_rows=None):
    rng = ctx.rng
    kw = {
        "sparse": rng.random() < 0.6, "sort": rng.random() < 0.7, "separator": rng.choice(["=", "=", ":", "", "__"]),
        "dtype": rng.choice([np.float64, np.float64, np.float32, np.int64, float, int]),
    }
    names, values = list(NAMES), list(VALUES)
    if rng.random() < 0.5:
        # few names and values, with relatives of them
        names = rng.sample(NAMES, 3)
        values = rng.sample(VALUES, 3)
    names += [data.relative(rng, rng.choice(names)) for _ in range(ctx.size([0, 3], [3, 800]))]
    values += [data.relative(rng, rng.choice(values)) for _ in range(ctx.size([0, 3], [3, 800]))]
    D = [mapping(ctx, names, values) for _ in range(ctx.size([1, 3, 15], [15, 300]))]
    if not any(D):
        D.append({"age": 1})
    est = DictVectorizer(**kw)
    fit_or_skip(est, D)
    if rng.random() < 0.15 and len(est.feature_names_) > 1:
        # a restricted vectorizer renumbers its columns
        keep = sorted(rng.sample(range(len(est.feature_names_)), rng.randint(1, len(est.feature_names_))))
        est.restrict(keep, indices=True)
    m = n_rows or ctx.size([1, 2, 8], [8, 300, 1100])
    unseen = names + ["unseen", "new key", "age "] + [data.relative(rng, rng.choice(names)) for _ in range(4)]
    other = values + ["Unknown", "r"] + [data.relative(rng, rng.choice(values)) for _ in range(4)]
    rows = []
    for _ in range(m):
        u = rng.random()
        rows.append(rng.choice(D) if u < 0.3 else mapping(ctx, names, values) if u < 0.6 else mapping(ctx, unseen, other))
    config = dict(kw, kind="dict", dtype=getattr(kw["dtype"], "__name__", ""), columns=len(est.feature_names_))
    return DictSubject(
        ctx, "DictVectorizer", est, rows, ["transform"], config, tol=0.0 if kw["dtype"] is not np.float32 else 1e-7,
    )
