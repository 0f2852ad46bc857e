"""
Every family of subjects behind one interface, for the properties that hold
for all converted models alike, and helpers to observe calls in a fresh process.
"""

import copy
import os
import pickle
import sys

from . import fam_ft, fam_linear, fam_nb, fam_pipe, fam_prep, fam_text, fam_tree
from .core import Skip, busy, call
from .subject import is_sparse

ZOO = {
    "linear": lambda ctx, m: fam_linear.make(ctx, n_rows=m),
    "tree": lambda ctx, m: fam_tree.make_tree(ctx, n_rows=m),
    "ensemble": lambda ctx, m: fam_tree.make_ensemble(ctx, n_rows=m),
    "gb": lambda ctx, m: fam_tree.make_gb(ctx, n_rows=m),
    "xgb": lambda ctx, m: fam_tree.make_xgb(ctx, n_rows=m),
    "nb": lambda ctx, m: fam_nb.make_nb(ctx, n_rows=m),
    "dummy": lambda ctx, m: fam_nb.make_dummy(ctx, n_rows=m),
    "scaler": lambda ctx, m: fam_prep.make_scaler(ctx, n_rows=m),
    "encoder": lambda ctx, m: fam_prep.make_encoder(ctx, n_rows=m),
    "imputer": lambda ctx, m: fam_prep.make_imputer(ctx, n_rows=m),
    "text": lambda ctx, m: fam_text.make_text(ctx, n_rows=m),
    "tfidf": lambda ctx, m: fam_text.make_transformer(ctx, n_rows=m),
    "hashing": lambda ctx, m: fam_text.make_hashing(ctx, n_rows=m),
    "dict": lambda ctx, m: fam_text.make_dict(ctx, n_rows=m),
    "pipe": lambda ctx, m: fam_pipe.make_pipe(ctx, n_rows=m),
    "ft_supervised": lambda ctx, m: fam_ft.make_ft(ctx, "supervised", n_rows=m),
    "ft_unsupervised": lambda ctx, m: fam_ft.make_ft(ctx, ctx.rng.choice(["cbow", "skipgram"]), n_rows=m),
}
CLASSIFIERS = ("linear", "tree", "ensemble", "gb", "xgb", "nb", "dummy", "pipe")


def make(ctx, family, n_rows=None):
    if ctx.big and n_rows:
        n_rows = ctx.rng.choice([n_rows, 20, 150])
    s = ZOO[family](ctx, n_rows)
    s.zoo = family
    return s


def usable_rows(ctx, s, limit=None):
    """ rows for which the native model has an answer (the oracle is elsewhere) """
    rows = list(s.rows)
    if s.kind == "lines":
        rows += ctx.rng.sample(s.words, min(3, len(s.words)))
        ctx.rng.shuffle(rows)
    if limit and len(rows) > limit:
        rows = [rows[i] for i in sorted(ctx.rng.sample(range(len(rows)), limit))]
    return rows


def methods(s):
    """ every observable method, with some parameters """
    if s.kind == "lines":
        extra = ["predict:-1:0.0", "predict:2:0.4", "predict:1:0.0"] if s.supervised else []
        return s.methods + ["get_word_vector"] + extra
    return s.methods


def modes(s):
    """ the input representations a subject accepts """
    if s.kind == "matrix" and s.sparse_ok:
        return [False, True]
    return [False]


class in_process:
    """
    Runs functions in a forked copy of this process as it is now, so that no
    state left by earlier calls (caches, globals) can leak into the answer.
    """

    def __init__(self, func):
        self.func = func

    def __call__(self, *args):
        with busy():
            return self.run(*args)

    def run(self, *args):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                try:
                    out = ("ok", self.func(*args))
                    data = pickle.dumps(out)
                except BaseException as e:
                    data = pickle.dumps(("raised", "%s: %s" % (type(e).__name__, e)))
                with os.fdopen(w, "wb") as fh:
                    fh.write(data)
            except BaseException:
                code = 71
            os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
        os.waitpid(pid, 0)
        return pickle.loads(data)


def answer(s, pure, method, rows, sparse=False, explicit=None):
    """ one call; an exception is an answer too: its type """
    try:
        with busy():
            return ("ok", s.apply(pure, method, rows, sparse, explicit))
    except Exception as e:
        return ("raised", type(e).__name__)


def fresh_answers(ctx, s, blob, calls):
    """ each call on its own unpickled copy in its own process """

    def one(c):
        return answer(s, pickle.loads(blob), *c)

    out = []
    for c in calls:
        status, res = in_process(one)(c)
        if status != "ok":
            raise RuntimeError("fresh process: %s" % res)
        ctx.event("fresh_process_answers")
        out.append(res)
    return out


def dumps(ctx, s, pure, protocol=4):
    return call(ctx, "pickling %s" % s.family, pickle.dumps, pure, protocol)


def scribble(obj, depth=0):
    """ overwrite a returned result in place, as a careless caller may """
    if depth > 4:
        return
    if isinstance(obj, dict):
        for v in list(obj.values()):
            scribble(v, depth + 1)
        for k in list(obj):
            obj[k] = -12345.5
        obj["scribble"] = "scribble"
    elif isinstance(obj, list):
        for v in list(obj):
            scribble(v, depth + 1)
        for i in range(len(obj)):
            obj[i] = "scribble"
        obj.append("scribble")
        if is_sparse(obj):
            obj.size = -7
    elif isinstance(obj, tuple):
        for v in obj:
            scribble(v, depth + 1)
