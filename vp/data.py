""" Workload data: feature matrices, labels, documents, mappings """

import math
import struct
import unicodedata

import numpy as np

# ------------------------------------------------------------------ matrices

MODES = ("gauss", "grid", "int", "wide", "sparse", "const", "near", "binary")


def matrix(ctx, n, d, mode=None):
    """ n x d finite float matrix; modes differ in magnitude, ties and zeros """
    r = ctx.np
    mode = mode or ctx.rng.choice(MODES)
    if mode == "gauss":
        X = r.randn(n, d)
    elif mode == "grid":
        X = r.randint(-12, 13, (n, d)) / 4.0
    elif mode == "int":
        X = r.randint(-5, 6, (n, d)).astype(float)
    elif mode == "wide":
        X = r.randn(n, d) * 10.0 ** r.randint(-8, 9, (n, d))
    elif mode == "sparse":
        X = r.randn(n, d) * (r.rand(n, d) < 0.3)
    elif mode == "const":
        X = r.randn(n, d)
        X[:, r.rand(d) < 0.5] = r.choice([0.0, 3.25, -1.5])
    elif mode == "near":
        # values a few double or single precision steps apart
        X = r.choice([0.1, 0.7, 1.0, 16777217.0, -3.3], (n, d)) * (
            1.0 + r.randint(-4, 5, (n, d)) * r.choice([2.0 ** -52, 2.0 ** -25, 2.0 ** -23], (n, d))
        )
    elif mode == "binary":
        X = r.randint(0, 2, (n, d)).astype(float)
    else:
        raise KeyError(mode)
    return X


def counts(ctx, n, d, high=6, density=0.5):
    r = ctx.np
    return (r.randint(0, high, (n, d)) * (r.rand(n, d) < density)).astype(float)


def float32_exact(X):
    return np.asarray(X, dtype=np.float32).astype(float)


def signal_labels(ctx, X, k, noise=0.2):
    """ k roughly balanced class indices which depend on X, all of them present """
    r = ctx.np
    n = len(X)
    s = X[:, 0] * 1.0
    if X.shape[1] > 1:
        s = s + 0.5 * X[:, -1]
    order = np.argsort(np.argsort(s + 1e-9 * r.rand(n)))
    y = (order * k // n).astype(int)
    flip = r.rand(n) < noise
    y[flip] = r.randint(0, k, flip.sum())
    y[: min(k, n)] = np.arange(min(k, n))
    return y


LABEL_KINDS = ("range", "gap", "negative", "float", "str", "bool", "object", "unicode", "large")


def label_values(ctx, k, kind=None):
    """ k distinct labels of one kind, in a random order """
    kind = kind or ctx.rng.choice(LABEL_KINDS)
    if kind == "bool" and k != 2:
        kind = "str"
    pool = {
        "range": list(range(12)),
        "gap": [1, 4, 5, 9, 17, 100, 33, 64, 7, 8, 21, 50],
        "negative": [-7, -1, 0, 3, -100, 12, 5, 4, -2, -3, -4, -5],
        "float": [0.0, -1.0, 2.0, 3.0, 1e6, -7.0, 10.0, 20.0, 30.0, 40.0, 9.0, 85.0],
        "str": ["no", "yes", "maybe", "a", "zz", "B", "10", "9", "c", "d", "e", "f"],
        "bool": [False, True],
        "object": ["x", "longer label", "", "10", "y", "z", "w", "v", "u", "t", "s", "r"],
        "unicode": ["é", "日本", "ß", "я", "z", "Z", "ä", "ö", "ü", "ñ", "ø", "å"],
        "large": [2 ** 40, -(2 ** 50), 0, 7, 2 ** 31, 2 ** 32, 11, 12, 13, 14, 15, 16],
    }[kind]
    if k > len(pool):
        more = {"float": lambda i: 100.5 + i, "str": lambda i: "label %d" % i, "object": lambda i: "o" * i,
                "unicode": lambda i: chr(0x4E00 + 37 * i)}.get(kind, lambda i: 1000 + 3 * i)
        pool = list(pool) + [v for v in map(more, range(2, 2 * k)) if v not in pool]
    vals = ctx.rng.sample(pool, k)
    return kind, vals


def label_array(kind, vals, y):
    # keep the kind of array numpy would give a user
    if kind == "object":
        out = np.empty(len(y), dtype=object)
        out[:] = [vals[i] for i in y]
        return out
    return np.array([vals[i] for i in y])


def f32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def neighbours(t):
    """ The doubles around t that single-precision rounding may treat differently """
    out = [t, np.nextafter(t, np.inf), np.nextafter(t, -np.inf)]
    c = np.float32(t)
    lo = np.nextafter(c, np.float32(-np.inf), dtype=np.float32)
    hi = np.nextafter(c, np.float32(np.inf), dtype=np.float32)
    for a, b in ((lo, c), (c, hi)):
        m = (float(a) + float(b)) / 2
        out += [m, np.nextafter(m, np.inf), np.nextafter(m, -np.inf)]
    out += [float(lo), float(c), float(hi)]
    lim = float(np.finfo(np.float32).max)
    return [float(v) for v in out if math.isfinite(v) and abs(v) < lim]


# ----------------------------------------------------------------- documents

WORDS = [
    "the", "a", "and", "is", "good", "bad", "Good", "GOOD", "not", "x1", "foo_bar", "it's",
    "e-mail", "3.14", "2020", "I", "café", "cafe\u0301", "naïve", "Straße", "STRASSE", "ÉCOLE",
    "İstanbul", "ıstanbul", "ﬁne", "日本語", "日本", "東京", "привет", "Привет", "שלום", "مرحبا",
    "👍", "👩‍👩‍👧", "a\u200bb", "co\u00adop", "Ω", "Å", "Å", "ǅ", "ß", "ŉ", "½", "²", "٣", "_",
    "™", "ℌ", "Ⅷ", "हिन्दी", "ไทยนี้", "a\u20ddb", "क\u093fताब", "ẞ", "ΣΊΣΥΦΟΣ", "Ĳ", "\u0130\u0307",
    "__", "--", "<b>", "&amp;", "supercalifragilisticexpialidocious", "zzz", "word", "words",
]
SEPS = [" ", " ", " ", " ", "  ", ", ", ". ", "\t", "\n", "\u00a0", "\u2003", "\x1c", "\x85", "\r\n", "-", "", "\x0b", "!"]
CHARS = "abcXYZ012 _-.,!éÉßıİ日本語\u0301\u0300\u200d™Ⅷℌนี\u0e48\u20dd\u0345\u00a0\t\n👍я" + "\x00\x1f\x7f"


def relative(rng, s):
    """ a string which careless handling confuses with s """
    return rng.choice([
        lambda: s + rng.choice([" ", "\t", "\n", "\u00a0", "\u200b", "\x00", ".", "=", "0", "s"]),
        lambda: rng.choice([" ", "\t", "\ufeff", "_", "-", "+", "0"]) + s,
        lambda: s.upper(), lambda: s.lower(), lambda: s.casefold(), lambda: s.title(), lambda: s.swapcase(),
        lambda: unicodedata.normalize("NFC", s), lambda: unicodedata.normalize("NFD", s),
        lambda: unicodedata.normalize("NFKC", s), lambda: s[:-1], lambda: s[1:], lambda: s[::-1],
        lambda: s * rng.choice([2, 40]), lambda: s.replace(" ", "_"), lambda: s.replace(" ", "  "), lambda: repr(s),
        lambda: s + rng.choice(CHARS), lambda: s.strip(), lambda: s.encode("ascii", "ignore").decode(),
    ])()


def document(ctx, maxlen=14):
    rng = ctx.rng
    u = rng.random()
    if u < 0.04:
        return ""
    if u > 0.985:
        maxlen = 400
    if u < 0.07:
        return rng.choice([" ", "\n\t ", "\u00a0", "!!!", "a", "é", "\u0301"])
    if u < 0.15:
        return "".join(rng.choice(CHARS) for _ in range(rng.randint(1, 25)))
    words = ctx.vocab if hasattr(ctx, "vocab") else WORDS
    out = []
    if ctx.big and rng.random() < 0.02:
        maxlen = 12000
    for _ in range(rng.randint(1, maxlen)):
        out.append(rng.choice(words))
        out.append(rng.choice(SEPS))
    return "".join(out)


def corpus(ctx, n, small=None):
    """ n documents over a (possibly tiny, hence repeating) vocabulary """
    rng = ctx.rng
    k = rng.choice([4, 8, 20, len(WORDS)]) if small is None else small
    ctx.vocab = rng.sample(WORDS, min(k, len(WORDS)))
    return [document(ctx) for _ in range(n)]
